package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/jobs"
	rproto "reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"verif/harness/dkvx"
	"verif/harness/ref"
	"verif/harness/snapx"
	"verif/harness/vlib"
)

const patience = 15 * time.Second

// What a node does with a call.
const (
	ok = iota
	fails
	hangs
)

// node is a fake worker.
type node struct {
	id, kind string
	silent   bool           // sends no heartbeats
	gone     bool           // will never be back
	mode     map[string]int // by call
	fail     map[string]int // failures left
	wake     chan struct{}  // closed to release hanging calls
}

// dep is one deployment, which begins with a new splitter.
type dep struct {
	n      int
	proc   *proc
	srs    []string
	ops    []string
	lost   string // a member that was missing when the job had processed all news
	srDone map[string]bool
	opDone map[string]bool
	ckpts  map[string]bool // ids in operator deployments
	from   uint64
	floor  uint64
	known  bool // from is known
	split  map[string]string
	given  map[string]bool
	start  bool
	spl    *splitter
	begun  map[uint64]map[string]bool
	passed map[uint64]int
	states map[uint64][]string // split states by checkpoint
}

// proc is one incarnation of the job.
type proc struct {
	n       int
	job     *jobs.Job
	loc     *snapx.Loc
	dead    atomic.Bool
	permits atomic.Int32
	workers int
}

type world struct {
	c        *vlib.Case
	groups   int
	splits   int
	deadline time.Duration
	disk     *snapx.Disk
	now      atomic.Int64
	holdTick atomic.Bool
	tickGate chan struct{}

	mu      sync.Mutex
	proc    *proc
	procs   int
	nodes   map[string]*node
	seq     int
	beat    map[string]int64 // registered nodes and their last heartbeat
	missing map[string]bool  // nodes missing in the last state the job has surely seen
	deps    []*dep
	owner   map[uint64]*dep // of the checkpoint ids
	acks    []ack
	newest  uint64 // published
	states  map[uint64][]string
	pubs    int
	busy    sync.WaitGroup
}

type ack struct {
	op   *snapshotpb.OperatorCheckpoint
	sr   *jobpb.SourceRunnerCheckpointCompleteRequest
	dep  *dep
	sent int
}

func newWorld(c *vlib.Case) *world {
	w := &world{c: c, groups: 1 + c.R.Intn(8), splits: 1 + c.R.Intn(6), nodes: map[string]*node{}, beat: map[string]int64{}, missing: map[string]bool{}, owner: map[uint64]*dep{}, states: map[uint64][]string{}, tickGate: make(chan struct{})}
	w.now.Store(1_000_000_000_000)
	w.deadline = 5 * time.Second
	if c.R.Intn(3) == 0 {
		w.deadline = time.Duration(1+c.R.Intn(20)) * time.Second
	}
	w.disk = snapx.NewDisk(dkvx.NewFS())
	w.disk.Wrote = w.wrote
	return w
}

// ---- the job

type clock struct {
	clocks.SystemClock
	w *world
	p *proc
}

func (c *clock) Now() time.Time { return time.Unix(0, c.w.now.Load()) }
func (c *clock) Every(d time.Duration, fn func(*clocks.EveryContext), label string) *clocks.Ticker {
	return c.SystemClock.Every(time.Millisecond, func(*clocks.EveryContext) {
		if c.p.dead.Load() {
			return
		}
		for n := c.p.permits.Load(); ; n = c.p.permits.Load() {
			if n <= 0 {
				return
			}
			if c.p.permits.CompareAndSwap(n, n-1) {
				break
			}
		}
		c.w.mu.Lock()
		g, hold := c.w.tickGate, c.w.holdTick.Load()
		c.w.mu.Unlock()
		if hold {
			c.w.c.Count("late_ticks", 1)
			<-g
		}
		fn(&clocks.EveryContext{})
	}, label)
}

func (w *world) startJob(workers int) {
	p := &proc{n: w.procs, loc: w.disk.Mount(), workers: workers}
	w.procs++
	cfg := &config.Config{WorkerCount: workers, KeyGroupCount: w.groups, WorkingStorageLocation: "/work", SavepointStorageLocation: "/save",
		Sources: []connectors.SourceConfig{source{w, p}}}
	np := &jobs.NewParams{JobConfig: cfg, Clock: &clock{w: w, p: p}, HeartbeatDeadline: w.deadline, Store: p.loc, Logger: dkvx.Quiet,
		OperatorFactory:     func(_ string, n *jobpb.NodeIdentity) rproto.Operator { return &opClient{w: w, p: p, n: n} },
		SourceRunnerFactory: func(n *jobpb.NodeIdentity) rproto.SourceRunner { return &srClient{w: w, p: p, n: n} },
	}
	if w.deadline == 5*time.Second {
		np.HeartbeatDeadline = 0 // the default
	}
	w.mu.Lock()
	old := w.proc
	w.proc = p
	w.beat = map[string]int64{}
	w.missing = map[string]bool{}
	w.acks = nil
	w.mu.Unlock()
	if old != nil {
		old.dead.Store(true)
		old.loc.Crash()
		w.wakeAll()
		w.releaseTick()
	}
	j, err := jobs.New(np)
	if err != nil {
		w.c.Fail("stuck", "the job can't be started: %v", err)
	}
	p.job = j
	w.c.Count("jobs_started", 1)
	w.c.Trace("job %d starts with %d workers, checkpoint %d published", p.n, workers, w.published())
}

func (w *world) published() uint64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.newest
}

// within runs f, which must end.
func (w *world) within(what string, f func()) {
	done := make(chan struct{})
	w.busy.Add(1)
	go func() { defer w.busy.Done(); f(); close(done) }()
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		w.c.Fail("stuck", "the job doesn't process %s for %v", what, patience)
	}
}

// flush waits until the job has processed everything, and notes which nodes it knows to be
// missing.
func (w *world) flush() {
	j := w.proc.job
	w.within("a change of the cluster", func() {
		for i := 0; i < 2; i++ { // the first one's evaluation is over when the second is accepted
			j.HandleDeregisterOperator(&jobpb.NodeIdentity{Id: "nobody"})
		}
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	now := w.now.Load()
	w.missing = map[string]bool{}
	for id := range w.nodes {
		hb, reg := w.beat[id]
		switch {
		case !reg:
			w.missing[id] = true
		case now-hb > int64(w.deadline):
			w.missing[id] = true
			delete(w.beat, id)
			w.c.Count("expired", 1)
		}
	}
	if len(w.deps) == 0 {
		return
	}
	d := w.deps[len(w.deps)-1]
	if d.proc != w.proc || d.lost != "" {
		return
	}
	for _, m := range append(append([]string{}, d.srs...), d.ops...) {
		if w.missing[m] {
			d.lost = m
			w.c.Trace("  %s of deployment %d is missing", m, d.n)
			w.c.Count("assemblies_lost", 1)
			switch {
			case len(d.given) < len(d.srs):
				w.c.Count("lost_while_starting", 1)
			case len(d.begun) > 0 && !w.done(d):
				w.c.Count("lost_during_checkpoint", 1)
			}
			break
		}
	}
}

// done reports whether the last checkpoint that was begun has been published.
func (w *world) done(d *dep) bool {
	for id := range d.begun {
		if id > w.newest {
			return false
		}
	}
	return true
}

func (w *world) register(n *node) {
	p := w.proc
	w.mu.Lock()
	delete(w.missing, n.id)
	w.beat[n.id] = w.now.Load()
	w.mu.Unlock()
	id := &jobpb.NodeIdentity{Id: n.id, Host: "host-" + n.id}
	w.within("a registration", func() {
		if n.kind == "op" {
			p.job.HandleRegisterOperator(id)
		} else {
			p.job.HandleRegisterSourceRunner(id)
		}
	})
}

func (w *world) deregister(n *node) {
	p := w.proc
	w.mu.Lock()
	delete(w.beat, n.id)
	w.mu.Unlock()
	id := &jobpb.NodeIdentity{Id: n.id, Host: "host-" + n.id}
	w.within("a deregistration", func() {
		if n.kind == "op" {
			p.job.HandleDeregisterOperator(id)
		} else {
			p.job.HandleDeregisterSourceRunner(id)
		}
	})
	w.flush()
}

// advance lets time pass.
func (w *world) advance(d time.Duration) {
	w.flush() // news have the time at which the job handles them
	w.now.Add(int64(d))
}

// heartbeats of all that send any.
func (w *world) beats() {
	for _, n := range w.all("") {
		if !n.silent {
			w.register(n)
		}
	}
}

func (w *world) all(kind string) (out []*node) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, n := range w.nodes {
		if !n.gone && (kind == "" || n.kind == kind) {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, k int) bool { return out[i].id < out[k].id })
	return
}

func (w *world) add(kind string) *node {
	w.mu.Lock()
	w.seq++
	// Nodes have random ids, so that new ones may come before or after others in their order
	n := &node{id: fmt.Sprintf("%s-%c%d", kind, 'a'+rune(w.c.R.Intn(26)), w.seq), kind: kind, mode: map[string]int{}, fail: map[string]int{}, wake: make(chan struct{})}
	w.nodes[n.id] = n
	w.mu.Unlock()
	return n
}

func (w *world) wakeAll() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, n := range w.nodes {
		close(n.wake)
		n.wake = make(chan struct{})
	}
}

func (w *world) releaseTick() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.holdTick.Store(false)
	close(w.tickGate)
	w.tickGate = make(chan struct{})
}

// ---- observation

// on is a call of the job that a node received.
func (w *world) on(p *proc, id, call string, ctx context.Context, check func(d *dep)) error {
	if p.dead.Load() {
		return errors.New("the job is dead")
	}
	w.mu.Lock()
	n := w.nodes[id]
	if n == nil || len(w.deps) == 0 || w.deps[len(w.deps)-1].proc != p {
		w.mu.Unlock()
		if ctx.Err() == nil {
			w.c.Report("unknown-node", "%s of %s without a deployment", call, id)
		}
		return errors.New("unknown node")
	}
	// Whether the deployment is lost is read before whether the call is over, since a lost
	// deployment's calls are.
	d := w.deps[len(w.deps)-1]
	lost, gone := d.lost, ""
	if w.missing[id] {
		gone = id
	}
	if ctx.Err() == nil && !p.dead.Load() {
		w.c.Count("calls_"+call, 1)
		switch {
		case lost != "" && call != "retain":
			w.c.Report("lost-assembly", "%s of %s in deployment %d, whose member %s was missing before", call, id, d.n, lost)
		case gone != "" && call != "retain":
			w.c.Report("lost-assembly", "%s of %s, which is missing, in deployment %d", call, id, d.n)
		}
		if check != nil {
			check(d)
		}
	}
	mode := n.mode[call]
	if mode == fails {
		if n.fail[call]--; n.fail[call] <= 0 {
			n.mode[call] = ok
		}
	}
	wake := n.wake
	w.mu.Unlock()
	switch mode {
	case fails:
		w.c.Count("calls_failed", 1)
		return errors.New("injected failure")
	case hangs:
		w.c.Count("calls_hung", 1)
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-wake:
		}
	}
	if p.dead.Load() {
		return errors.New("the job is dead")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if mode == hangs && n.gone {
		return errors.New("connection lost")
	}
	return ctx.Err()
}

func ids(ns []*jobpb.NodeIdentity) (out []string) {
	for _, n := range ns {
		out = append(out, n.GetId())
	}
	return
}

func unique(s []string) bool {
	t := slices.Clone(s)
	slices.Sort(t)
	return len(slices.Compact(t)) == len(s)
}

// members checks the operators a deployment names.
func (w *world) members(d *dep, what string, ops []string) {
	if d.ops == nil {
		d.ops = ops
		if len(ops) != d.proc.workers || !unique(ops) {
			w.c.Report("members", "deployment %d has the operators %v although the job has %d workers", d.n, ops, d.proc.workers)
		}
		for _, o := range ops {
			if w.missing[o] {
				w.c.Report("lost-assembly", "deployment %d has the operator %s, which is missing", d.n, o)
			}
			if n := w.nodes[o]; n == nil || n.kind != "op" {
				w.c.Report("members", "deployment %d has the operator %s, which there isn't", d.n, o)
			}
		}
		w.c.Distinct("memberships", len(d.srs), strings.Join(ops, ","), strings.Join(d.srs, ","))
	} else if !slices.Equal(d.ops, ops) {
		w.c.Report("members", "%s names the operators %v in deployment %d, others %v", what, ops, d.n, d.ops)
	}
}

func sortedEqual(a, b []string) bool {
	a, b = slices.Clone(a), slices.Clone(b)
	slices.Sort(a)
	slices.Sort(b)
	return slices.Equal(a, b)
}

// from notes which checkpoint a deployment uses.
func (w *world) from(d *dep, what string, id uint64) {
	if d.known && d.from != id {
		w.c.Report("restored", "%s is given checkpoint %d in deployment %d, others %d", what, id, d.n, d.from)
	}
	if !d.known {
		d.known, d.from = true, id
		if id < d.floor {
			w.c.Report("restored", "deployment %d restores checkpoint %d although %d is complete", d.n, id, d.floor)
		}
		if id > w.newest {
			w.c.Report("restored", "deployment %d restores checkpoint %d although the latest complete one is %d", d.n, id, w.newest)
		}
	}
}

type srClient struct {
	rproto.UnimplementedSourceRunner
	w *world
	p *proc
	n *jobpb.NodeIdentity
}

func (s *srClient) ID() string   { return s.n.Id }
func (s *srClient) Host() string { return s.n.Host }
func (s *srClient) Deploy(ctx context.Context, r *workerpb.DeploySourceRunnerRequest) error {
	w, id := s.w, s.n.Id
	var dd *dep
	err := w.on(s.p, id, "deploy", ctx, func(d *dep) {
		dd = d
		if !slices.Contains(d.srs, id) {
			w.c.Report("members", "%s is deployed although deployment %d has the source runners %v", id, d.n, d.srs)
		}
		w.members(d, id, ids(r.Operators))
		if int(r.KeyGroupCount) != w.groups {
			w.c.Report("members", "%s is deployed with %d key groups, not %d", id, r.KeyGroupCount, w.groups)
		}
	})
	if err == nil && dd != nil {
		w.mu.Lock()
		dd.srDone[id] = true
		w.mu.Unlock()
	}
	return err
}
func (s *srClient) AssignSplits(ctx context.Context, splits []*workerpb.SourceSplit) error {
	w, id := s.w, s.n.Id
	var dd *dep
	err := w.on(s.p, id, "assign", ctx, func(d *dep) {
		dd = d
		if !slices.Contains(d.srs, id) {
			w.c.Report("members", "%s is assigned splits although deployment %d has the source runners %v", id, d.n, d.srs)
		}
		w.deployed(d, "splits are assigned to "+id)
		for _, sp := range splits {
			if o := d.split[sp.SplitId]; o != "" {
				w.c.Report("members", "split %s is assigned to %s and %s in deployment %d", sp.SplitId, o, id, d.n)
			}
			d.split[sp.SplitId] = id
			want := ""
			if st := splitState(d.from, sp.SplitId); slices.Contains(w.states[d.from], st) {
				want = st
			}
			if string(sp.Cursor) != want {
				w.c.Report("restored", "split %s resumes from %q in deployment %d, which restores checkpoint %d", sp.SplitId, sp.Cursor, d.n, d.from)
			}
		}
	})
	if err == nil && dd != nil {
		w.mu.Lock()
		dd.given[id] = true
		w.mu.Unlock()
	}
	return err
}

// deployed checks that all members are.
func (w *world) deployed(d *dep, what string) {
	if len(d.srDone) < len(d.srs) || len(d.opDone) < d.proc.workers {
		w.c.Report("members", "%s when only the source runners %v of %v and the operators %v of %v are deployed in deployment %d", what, keys(d.srDone), d.srs, keys(d.opDone), d.ops, d.n)
	}
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return
}

func (s *srClient) StartCheckpoint(ctx context.Context, ck uint64) error {
	w, id := s.w, s.n.Id
	var dd *dep
	err := w.on(s.p, id, "checkpoint", ctx, func(d *dep) {
		dd = d
		if !slices.Contains(d.srs, id) {
			w.c.Report("members", "%s is to start checkpoint %d although deployment %d has the source runners %v", id, ck, d.n, d.srs)
		}
		w.deployed(d, fmt.Sprintf("%s is to start checkpoint %d", id, ck))
		// A job that is started again may use ids of unfinished checkpoints again
		if o := w.owner[ck]; o != nil && o != d && o.proc == d.proc {
			w.c.Report("checkpoint-reused", "%s is to start checkpoint %d in deployment %d, which %d already started", id, ck, d.n, o.n)
		}
		w.owner[ck] = d
		if ck <= w.newest {
			w.c.Report("checkpoint-reused", "%s is to start checkpoint %d although %d is complete", id, ck, w.newest)
		}
		if d.begun[ck] == nil {
			d.begun[ck] = map[string]bool{}
		}
		if d.begun[ck][id] {
			w.c.Report("checkpoint-reused", "%s is to start checkpoint %d twice", id, ck)
		}
		d.begun[ck][id] = true
	})
	if err == nil && dd != nil && !s.p.dead.Load() {
		w.mu.Lock()
		r := &jobpb.SourceRunnerCheckpointCompleteRequest{SourceRunnerId: id, CheckpointId: ck}
		for s := 0; s < w.splits; s++ {
			if dd.split[strconv.Itoa(s)] == id {
				r.SplitStates = append(r.SplitStates, []byte(splitState(ck, strconv.Itoa(s))))
				dd.states[ck] = append(dd.states[ck], splitState(ck, strconv.Itoa(s)))
			}
		}
		w.acks = append(w.acks, ack{sr: r, dep: dd})
		dd.passed[ck]++
		if dd.passed[ck] == len(dd.srs) { // all barriers
			for i, o := range dd.ops {
				rg := ref.Ranges(w.groups, len(dd.ops))[i]
				w.acks = append(w.acks, ack{dep: dd, op: &snapshotpb.OperatorCheckpoint{CheckpointId: ck, OperatorId: o, DkvFileUri: fmt.Sprintf("memory:///%s/%d", o, ck),
					KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(rg.Start), End: int32(rg.End)}}})
			}
		}
		w.mu.Unlock()
	}
	return err
}

func splitState(ck uint64, split string) string { return fmt.Sprintf("%d/%s", ck, split) }

type opClient struct {
	rproto.UnimplementedOperator
	w *world
	p *proc
	n *jobpb.NodeIdentity
}

func (o *opClient) ID() string   { return o.n.Id }
func (o *opClient) Host() string { return o.n.Host }
func (o *opClient) Deploy(ctx context.Context, r *workerpb.DeployOperatorRequest) error {
	w, id := o.w, o.n.Id
	var dd *dep
	err := w.on(o.p, id, "deploy", ctx, func(d *dep) {
		dd = d
		w.members(d, id, ids(r.Operators))
		if !slices.Contains(d.ops, id) {
			w.c.Report("members", "%s is deployed although deployment %d has the operators %v", id, d.n, d.ops)
			return
		}
		if !sortedEqual(r.SourceRunnerIds, d.srs) {
			w.c.Report("members", "%s is given the source runners %v in deployment %d, which has %v", id, r.SourceRunnerIds, d.n, d.srs)
		}
		own := ref.Ranges(w.groups, len(d.ops))[slices.Index(d.ops, id)]
		covered := map[int]bool{}
		for _, k := range r.Checkpoints {
			w.from(d, id, k.CheckpointId)
			for g := int(k.KeyGroupRange.GetStart()); g < int(k.KeyGroupRange.GetEnd()); g++ {
				covered[g] = true
			}
		}
		if len(r.Checkpoints) == 0 && own.End > own.Start {
			w.from(d, id, 0)
		}
		for g := own.Start; g < own.End && len(r.Checkpoints) > 0; g++ {
			if !covered[g] {
				w.c.Report("restored", "%s isn't given a checkpoint of key group %d in deployment %d", id, g, d.n)
				break
			}
		}
	})
	if err == nil && dd != nil {
		w.mu.Lock()
		dd.opDone[id] = true
		w.mu.Unlock()
	}
	return err
}
func (o *opClient) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return o.w.on(o.p, o.n.Id, "retain", ctx, nil)
}

// wrote observes published checkpoints.
func (w *world) wrote(p string, b []byte) {
	if !strings.HasSuffix(p, ".snapshot") {
		return
	}
	var k snapshotpb.JobCheckpoint
	if err := proto.Unmarshal(b, &k); err != nil {
		w.c.Report("published", "the checkpoint file %s can't be read: %v", p, err)
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.pubs++
	w.c.Count("checkpoints_published", 1)
	if k.Id > w.newest {
		w.newest = k.Id
	}
	d := w.owner[k.Id]
	if d == nil {
		w.c.Report("published", "checkpoint %d is published, which nobody started", k.Id)
		return
	}
	var ops []string
	for _, o := range k.OperatorCheckpoints {
		ops = append(ops, o.OperatorId)
		if o.CheckpointId != k.Id {
			w.c.Report("published", "checkpoint %d has %s's checkpoint %d", k.Id, o.OperatorId, o.CheckpointId)
		}
	}
	if !sortedEqual(ops, d.ops) {
		w.c.Report("published", "checkpoint %d has the operators %v although deployment %d has %v", k.Id, ops, d.n, d.ops)
	}
	var got, want []string
	for _, s := range k.SourceCheckpoints {
		for _, b := range s.SplitStates {
			got = append(got, string(b))
		}
		if string(s.SplitterState) != fmt.Sprint("splitter of ", d.n) {
			w.c.Report("published", "checkpoint %d of deployment %d has the state %q of a splitter", k.Id, d.n, s.SplitterState)
		}
	}
	want = d.states[k.Id]
	w.states[k.Id] = want
	if !sortedEqual(got, want) {
		w.c.Report("published", "checkpoint %d has the split states %v, not %v", k.Id, got, want)
	}
}

// ---- the source

type source struct {
	w *world
	p *proc
}

func (s source) Validate() error { return nil }
func (s source) NewSourceReader(connectors.SourceReaderHooks) connectors.SourceReader {
	panic("no readers")
}
func (s source) ProtoMessage() *jobconfigpb.Source { return &jobconfigpb.Source{} }
func (s source) NewSourceSplitter(srs []string, hooks connectors.SourceSplitterHooks, _ chan<- error) connectors.SourceSplitter {
	w := s.w
	if s.p.dead.Load() {
		return &splitter{w: w, hooks: hooks}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	d := &dep{n: len(w.deps), proc: s.p, srs: slices.Clone(srs), floor: w.newest, srDone: map[string]bool{}, opDone: map[string]bool{}, split: map[string]string{}, given: map[string]bool{}, begun: map[uint64]map[string]bool{}, passed: map[uint64]int{}, states: map[uint64][]string{}}
	w.deps = append(w.deps, d)
	if len(srs) != s.p.workers || !unique(srs) {
		w.c.Report("members", "deployment %d has the source runners %v although the job has %d workers", d.n, srs, s.p.workers)
	}
	for _, id := range srs {
		if n := w.nodes[id]; n == nil || n.kind != "sr" {
			w.c.Report("members", "deployment %d has the source runner %s, which there isn't", d.n, id)
		}
	}
	w.c.Trace("  deployment %d with %v", d.n, srs)
	w.c.Count("deployments", 1)
	d.spl = &splitter{w: w, d: d, hooks: hooks, spread: w.c.Seed + int64(d.n)}
	return d.spl
}

type splitter struct {
	w      *world
	d      *dep
	hooks  connectors.SourceSplitterHooks
	spread int64
	closed atomic.Bool
}

func (s *splitter) IsSourceSplitter()                     {}
func (s *splitter) Close() error                          { s.closed.Store(true); return nil }
func (s *splitter) NotifySplitsFinished(string, []string) {}
func (s *splitter) Checkpoint() []byte {
	if s.d == nil {
		return nil
	}
	return []byte(fmt.Sprint("splitter of ", s.d.n))
}
func (s *splitter) Start(k *snapshotpb.SourceCheckpoint) error {
	w, d := s.w, s.d
	if d == nil || d.proc.dead.Load() {
		return errors.New("the job is dead")
	}
	w.mu.Lock()
	w.deployed(d, "the splitter starts")
	if k != nil {
		w.from(d, "the splitter", k.CheckpointId)
	} else {
		w.from(d, "the splitter", 0)
	}
	cur := map[string]string{}
	for _, b := range k.GetSplitStates() {
		ck, sp, _ := strings.Cut(string(b), "/")
		id, _ := strconv.ParseUint(ck, 10, 64)
		w.from(d, "a split", id)
		cur[sp] = string(b)
	}
	if k != nil && len(cur) != len(w.states[k.CheckpointId]) {
		w.c.Report("restored", "the splitter restores %d splits of %d in deployment %d", len(cur), len(w.states[k.CheckpointId]), d.n)
	}
	d.start = true
	w.mu.Unlock()
	as := map[string][]*workerpb.SourceSplit{}
	for i := 0; i < w.splits; i++ {
		sp := strconv.Itoa(i)
		sr := d.srs[(int(s.spread)+i)%len(d.srs)]
		var c []byte
		if cur[sp] != "" {
			c = []byte(cur[sp])
		}
		as[sr] = append(as[sr], &workerpb.SourceSplit{SplitId: sp, SourceId: "source", Cursor: c})
	}
	if s.spread%2 == 0 {
		s.hooks.AssignSplits(as)
	} else { // as splitters that discover splits in the background do
		w.busy.Add(1)
		go func() { defer w.busy.Done(); s.hooks.AssignSplits(as) }()
	}
	return nil
}

// late lets a splitter that was closed discover more splits.
func (s *splitter) late() {
	if s.d == nil {
		return
	}
	as := map[string][]*workerpb.SourceSplit{}
	for _, sr := range s.d.srs {
		as[sr] = []*workerpb.SourceSplit{{SplitId: fmt.Sprint("late", s.d.n, sr), SourceId: "source"}}
	}
	s.hooks.AssignSplits(as)
}
