package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/jobs"
	rproto "reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/sourcerunner"
	"verif/harness/dkvx"
	"verif/harness/ref"
	"verif/harness/snapx"
	"verif/harness/vlib"
)

// world is a real job with real source runners that read a connector's source, and operators
// that record what they receive.
type world struct {
	c      *vlib.Case
	src    origin
	groups int
	pace   time.Duration // of operators
	acks   time.Duration
	batch  batching.EventBatcherParams
	disk   *snapx.Disk

	mu    sync.Mutex
	r     *rand.Rand
	proc  *proc
	procs int
	srs   map[string]*runner
	ops   map[string]bool
	opN   int
	deps  []*dep
	pubs  []*snapshotpb.JobCheckpoint
	beat  sync.Mutex // nodes talk to the job about being there
	busy  sync.WaitGroup
	over  atomic.Bool

	records atomic.Int64
}

// proc is one incarnation of the job.
type proc struct {
	n       int
	job     *jobs.Job
	loc     *snapx.Loc
	dead    atomic.Bool
	permits atomic.Int32
	workers int
}

// runner is a source runner process.
type runner struct {
	sr     *sourcerunner.SourceRunner
	cancel context.CancelFunc
	end    chan struct{}
	dead   atomic.Bool
}

// dep is one deployment.
type dep struct {
	n        int
	proc     *proc
	srs      []string
	ops      []string
	from     uint64
	base     map[string]int
	done     map[string]bool // splits known to be finished when the checkpoint was taken or later
	pos      map[string]int  // records received
	owner    map[string]string
	reader   map[string]string
	finished map[string]bool
	bars     map[uint64]map[string]bool // checkpoint -> runner>operator
	cuts     map[uint64]map[string]int
	acked    map[uint64]bool
	given    int
}

func newWorld(c *vlib.Case, src origin) *world {
	r := c.R
	w := &world{c: c, src: src, groups: 1 + r.Intn(8), r: rand.New(rand.NewSource(r.Int63())), srs: map[string]*runner{}, ops: map[string]bool{}, disk: snapx.NewDisk(dkvx.NewFS())}
	w.pace = time.Duration(100+r.Intn(1500)) * time.Microsecond
	if r.Intn(2) == 0 {
		w.acks = time.Duration(r.Intn(10000)) * time.Microsecond
	}
	w.batch = batching.EventBatcherParams{MaxSize: 1 + r.Intn(20), MaxDelay: time.Duration(50+r.Intn(2000)) * time.Microsecond}
	w.disk.Wrote = w.wrote
	return w
}

func (w *world) wait(max time.Duration) {
	if max > 0 {
		w.mu.Lock()
		d := time.Duration(w.r.Int63n(int64(max)))
		w.mu.Unlock()
		time.Sleep(d)
	}
}

// ---- the job

type clock struct {
	clocks.SystemClock
	p *proc
}

func (c *clock) Now() time.Time { return time.Unix(1000, 0) }
func (c *clock) Every(_ time.Duration, fn func(*clocks.EveryContext), label string) *clocks.Ticker {
	return c.SystemClock.Every(500*time.Microsecond, func(*clocks.EveryContext) {
		if !c.p.dead.Load() && c.p.permits.CompareAndSwap(1, 0) {
			fn(&clocks.EveryContext{})
		}
	}, label)
}

func (w *world) startJob(workers int) {
	p := &proc{n: w.procs, loc: w.disk.Mount(), workers: workers}
	w.procs++
	w.beat.Lock()
	defer w.beat.Unlock()
	w.mu.Lock()
	old := w.proc
	w.proc = p
	w.mu.Unlock()
	if old != nil {
		old.dead.Store(true)
		old.loc.Crash()
		w.end(old)
	}
	w.c.Trace("job %d starts with %d workers", p.n, workers)
	j, err := jobs.New(&jobs.NewParams{
		JobConfig: &config.Config{WorkerCount: workers, KeyGroupCount: w.groups, WorkingStorageLocation: "/work", SavepointStorageLocation: "/save", Sources: []connectors.SourceConfig{source{w.src.config(), w, p}}},
		Clock:     &clock{p: p}, HeartbeatDeadline: time.Hour, Store: p.loc, Logger: dkvx.Quiet,
		OperatorFactory:     func(_ string, n *jobpb.NodeIdentity) rproto.Operator { return &opClient{w: w, p: p, id: n.Id} },
		SourceRunnerFactory: func(n *jobpb.NodeIdentity) rproto.SourceRunner { return &srClient{w: w, p: p, id: n.Id} },
	})
	if err != nil {
		w.c.Fail("job", "the job can't be started: %v", err)
	}
	p.job = j
	for len(w.ops) < workers || w.c.R.Intn(6) == 0 {
		w.addOp()
	}
	for len(w.srs) < workers || w.c.R.Intn(6) == 0 {
		w.addSR()
	}
	if old == nil {
		w.busy.Add(1)
		go w.heartbeats()
	}
}

func (w *world) names() (out []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for id := range w.ops {
		out = append(out, id)
	}
	for id := range w.srs {
		out = append(out, id)
	}
	sort.Strings(out)
	return
}

func (w *world) addOp() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.opN++
	id := fmt.Sprint("op-", w.opN)
	w.ops[id] = true
	return id
}

func (w *world) addSR() string {
	s := &runner{end: make(chan struct{})}
	s.sr = sourcerunner.New(sourcerunner.NewParams{
		Host: "sr", UserHandler: handler{w}, Job: &jobClient{w: w, s: s}, EventBatching: w.batch,
		OperatorFactory: func(sender string, n *jobpb.NodeIdentity) rproto.Operator { return w.dial(sender, n.Id) },
	})
	s.sr.Logger = dkvx.Quiet
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	go func() {
		defer close(s.end)
		err := s.sr.Start(ctx)
		if !s.dead.Load() {
			w.c.Report("runner", "source runner %s ended: %v", s.sr.ID, err)
		}
	}()
	w.mu.Lock()
	w.srs[s.sr.ID] = s
	w.mu.Unlock()
	return s.sr.ID
}

func (w *world) register(id string) {
	n := &jobpb.NodeIdentity{Id: id, Host: id}
	w.beat.Lock()
	defer w.beat.Unlock()
	w.mu.Lock()
	alive := w.ops[id] || w.srs[id] != nil
	w.mu.Unlock()
	if !alive {
		return
	}
	if strings.HasPrefix(id, "op-") {
		w.proc.job.HandleRegisterOperator(n)
	} else {
		w.proc.job.HandleRegisterSourceRunner(n)
	}
}

// heartbeats keeps registering the nodes as they do.
func (w *world) heartbeats() {
	defer w.busy.Done()
	for !w.over.Load() {
		for _, id := range w.names() {
			w.register(id)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// lose ends a node for good and tells the job.
func (w *world) lose(id string) {
	n := &jobpb.NodeIdentity{Id: id, Host: id}
	w.beat.Lock()
	defer w.beat.Unlock()
	w.mu.Lock()
	s := w.srs[id]
	delete(w.srs, id)
	delete(w.ops, id)
	w.mu.Unlock()
	if s == nil {
		w.proc.job.HandleDeregisterOperator(n)
		return
	}
	s.kill()
	w.proc.job.HandleDeregisterSourceRunner(n)
}

func (s *runner) kill() {
	s.dead.Store(true)
	s.sr.Halt()
	s.cancel()
}

func (w *world) close() {
	if w.over.Swap(true) {
		return
	}
	w.beat.Lock() // no heartbeats anymore
	w.proc.dead.Store(true)
	w.proc.loc.Crash()
	w.beat.Unlock()
	w.mu.Lock()
	srs := w.srs
	w.mu.Unlock()
	for _, s := range srs {
		s.kill()
	}
	for _, s := range srs {
		<-s.end
	}
	w.end(w.proc)
	w.busy.Wait()
}

// end keeps a dead job from trying to start again.
func (w *world) end(p *proc) {
	for _, id := range w.names() {
		n := &jobpb.NodeIdentity{Id: id, Host: id}
		p.job.HandleDeregisterOperator(n)
		p.job.HandleDeregisterSourceRunner(n)
	}
	p.job.Close()
}

// ---- deployments

type source struct {
	connectors.SourceConfig
	w *world
	p *proc
}

func (s source) NewSourceSplitter(srs []string, hooks connectors.SourceSplitterHooks, errs chan<- error) connectors.SourceSplitter {
	w := s.w
	if !s.p.dead.Load() {
		w.mu.Lock()
		d := &dep{n: len(w.deps), proc: s.p, srs: slices.Clone(srs), base: map[string]int{}, done: map[string]bool{}, pos: map[string]int{}, owner: map[string]string{}, reader: map[string]string{}, finished: map[string]bool{}, bars: map[uint64]map[string]bool{}, cuts: map[uint64]map[string]int{}, acked: map[uint64]bool{}}
		w.deps = append(w.deps, d)
		w.c.Trace("  deployment %d with %d source runners", d.n, len(srs))
		w.c.Count("deployments", 1)
		w.mu.Unlock()
	}
	return s.SourceConfig.NewSourceSplitter(srs, hooks, errs)
}

// latest is p's latest deployment if it is not over; w.mu is held.
func (w *world) latest(p *proc, ctx context.Context) *dep {
	if w.over.Load() || p.dead.Load() || ctx.Err() != nil || len(w.deps) == 0 || w.deps[len(w.deps)-1].proc != p {
		return nil
	}
	return w.deps[len(w.deps)-1]
}

var errGone = errors.New("connection refused")

type opClient struct {
	rproto.UnimplementedOperator
	w  *world
	p  *proc
	id string
}

func (o *opClient) ID() string   { return o.id }
func (o *opClient) Host() string { return o.id }
func (o *opClient) Deploy(ctx context.Context, r *workerpb.DeployOperatorRequest) error {
	w := o.w
	w.mu.Lock()
	defer w.mu.Unlock()
	d := w.latest(o.p, ctx)
	if d == nil || !w.ops[o.id] {
		return errGone
	}
	d.ops = nil
	for _, n := range r.Operators {
		d.ops = append(d.ops, n.Id)
	}
	for _, k := range r.Checkpoints {
		if k.CheckpointId > d.from {
			d.from = k.CheckpointId
			w.restore(d)
		}
	}
	return nil
}
func (o *opClient) UpdateRetainedCheckpoints(context.Context, []uint64) error { return nil }

// restore finds where d's splits have to be resumed.
func (w *world) restore(d *dep) {
	for i := d.n - 1; i >= 0; i-- {
		e := w.deps[i]
		if e.bars[d.from] == nil {
			continue
		}
		if len(e.bars[d.from]) != len(e.srs)*len(e.ops) {
			w.c.Report("incomplete", "deployment %d restores checkpoint %d, of which only %d barriers of %d arrived", d.n, d.from, len(e.bars[d.from]), len(e.srs)*len(e.ops))
		}
		d.base = e.cut(d.from)
		for s, n := range d.base {
			d.pos[s] = n
		}
		w.c.Count("restores", 1)
		if len(d.srs) != len(e.srs) {
			w.c.Count("restores_by_other_runners", 1)
		}
		w.c.Trace("  deployment %d restores checkpoint %d of %d: %v", d.n, d.from, e.n, d.base)
		return
	}
	w.c.Report("incomplete", "deployment %d restores checkpoint %d, which had no barriers", d.n, d.from)
}

// cut is what a checkpoint covers of each split.
func (e *dep) cut(id uint64) map[string]int {
	m := map[string]int{}
	for s, n := range e.base {
		m[s] = n
	}
	for s, n := range e.cuts[id] {
		m[s] = n
	}
	return m
}

type srClient struct {
	rproto.UnimplementedSourceRunner
	w  *world
	p  *proc
	id string
}

func (s *srClient) find(ctx context.Context) (*dep, *runner) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	d, r := s.w.latest(s.p, ctx), s.w.srs[s.id]
	if d == nil || r == nil || r.dead.Load() {
		return nil, nil
	}
	return d, r
}

func (s *srClient) ID() string   { return s.id }
func (s *srClient) Host() string { return s.id }
func (s *srClient) Deploy(ctx context.Context, r *workerpb.DeploySourceRunnerRequest) error {
	if d, x := s.find(ctx); d != nil {
		return x.sr.HandleDeploy(ctx, r)
	}
	return errGone
}
func (s *srClient) StartCheckpoint(ctx context.Context, id uint64) error {
	w := s.w
	w.wait(w.acks)
	if d, x := s.find(ctx); d != nil {
		x.sr.HandleStartCheckpoint(ctx, id)
		return nil
	}
	return errGone
}
func (s *srClient) AssignSplits(ctx context.Context, splits []*workerpb.SourceSplit) error {
	w := s.w
	w.wait(w.acks / 4)
	d, x := s.find(ctx)
	if d == nil {
		return errGone
	}
	all := w.src.splits()
	w.mu.Lock()
	for _, sp := range splits {
		w.c.Count("splits_assigned", 1)
		w.c.Trace("  %s is assigned %s at %q in deployment %d", s.id, sp.SplitId, sp.Cursor, d.n)
		d.given++
		if o := d.owner[sp.SplitId]; o != "" {
			w.c.Report("two-readers", "split %s is assigned to %s and to %s in deployment %d, which restores checkpoint %d", sp.SplitId, o, s.id, d.n, d.from)
		}
		d.owner[sp.SplitId] = s.id
		w.early(all, sp.SplitId, fmt.Sprintf("in deployment %d, which restores checkpoint %d", d.n, d.from), d.finished, d.pos)
	}
	w.mu.Unlock()
	return x.sr.HandleAssignSplits(splits)
}

// early reports a split that's handed out before its parents were read.
func (w *world) early(all []split, id, where string, finished map[string]bool, pos map[string]int) {
	i := slices.IndexFunc(all, func(s split) bool { return s.id == id })
	if i < 0 {
		w.c.Report("unknown-split", "split %s is assigned %s, which doesn't exist", id, where)
		return
	}
	for _, p := range all[i].parents {
		k := slices.IndexFunc(all, func(s split) bool { return s.id == p })
		w.c.Count("children_assigned", 1)
		if !finished[p] && !(all[k].closed && pos[p] == all[k].n) {
			w.c.Report("child-early", "split %s is handed out %s after %d of %d records of its parent %s were read", id, where, pos[p], all[k].n, p)
		}
	}
}

// jobClient is how a source runner calls the job.
type jobClient struct {
	rproto.NoopJob
	w *world
	s *runner
}

func (j *jobClient) RegisterSourceRunner(context.Context, *jobpb.NodeIdentity) error   { return nil }
func (j *jobClient) DeregisterSourceRunner(context.Context, *jobpb.NodeIdentity) error { return nil }
func (j *jobClient) current() *proc {
	j.w.mu.Lock()
	defer j.w.mu.Unlock()
	if j.s.dead.Load() || j.w.proc.dead.Load() || j.w.over.Load() || j.w.proc.job == nil {
		return nil
	}
	return j.w.proc
}
func (j *jobClient) OnSourceRunnerCheckpointComplete(ctx context.Context, r *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	j.w.wait(j.w.acks)
	if p := j.current(); p != nil && ctx.Err() == nil {
		return p.job.HandleSourceRunnerCheckpointComplete(ctx, r)
	}
	return errGone
}
func (j *jobClient) NotifySplitsFinished(ctx context.Context, id string, splits []string) error {
	w := j.w
	w.wait(w.acks / 4)
	p := j.current()
	if p == nil || ctx.Err() != nil {
		return errGone
	}
	w.mu.Lock()
	if d := w.latest(p, ctx); d != nil {
		for _, s := range splits {
			w.c.Count("splits_finished", 1)
			w.c.Trace("  %s finishes %s in deployment %d", id, s, d.n)
			if d.owner[s] == id {
				d.finished[s] = true
			}
		}
	}
	w.mu.Unlock()
	return p.job.HandleNotifySplitsFinished(id, splits)
}

// ---- what operators receive

type handler struct{ w *world }

func (h handler) ProcessEventBatch(context.Context, *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	panic("no operators")
}
func (h handler) KeyEventBatch(ctx context.Context, raw [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	h.w.wait(h.w.pace)
	out := make([][]*handlerpb.KeyedEvent, len(raw))
	for i, b := range raw {
		s, n := h.w.src.decode(b)
		if s == "" {
			h.w.c.Report("content", "the record %q was read", b)
		}
		out[i] = []*handlerpb.KeyedEvent{{Key: []byte(s), Value: []byte(strconv.Itoa(n)), Timestamp: timestamppb.New(time.Unix(int64(n), 0))}}
	}
	return out, nil
}

// conn is a source runner's connection to an operator in a deployment.
type conn struct {
	rproto.UnimplementedOperator
	w      *world
	d      *dep
	sr, op string
	own    map[string]bool
}

func (w *world) dial(sr, op string) rproto.Operator {
	w.mu.Lock()
	defer w.mu.Unlock()
	return &conn{w: w, d: w.deps[len(w.deps)-1], sr: sr, op: op, own: map[string]bool{}}
}

func (o *conn) ID() string   { return o.op }
func (o *conn) Host() string { return o.op }
func (o *conn) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	w, d := o.w, o.d
	w.wait(w.pace)
	w.mu.Lock()
	defer w.mu.Unlock()
	if ctx.Err() != nil {
		return ctx.Err()
	}
	if w.srs[o.sr] == nil || !w.ops[o.op] { // lost with its process
		return nil
	}
	for _, e := range batch {
		switch t := e.Event.(type) {
		case *workerpb.Event_KeyedEvent:
			s := string(t.KeyedEvent.Key)
			i, _ := strconv.Atoi(string(t.KeyedEvent.Value))
			w.c.Count("records", 1)
			w.records.Add(1)
			if r := d.reader[s]; r == "" {
				d.reader[s] = o.sr
				if d.from > 0 {
					w.c.Count("splits_resumed", 1)
				}
				if i != d.base[s] {
					w.c.Report("resumed", "split %s is read from record %d on in deployment %d, which restores checkpoint %d with its first %d records", s, i, d.n, d.from, d.base[s])
				}
			} else {
				if r != o.sr {
					w.c.Report("two-readers", "%s reads record %d of split %s in deployment %d, which %s reads", o.sr, i, s, d.n, r)
				}
				if i != d.pos[s] {
					w.c.Report("order", "record %d of split %s follows %d records in deployment %d", i, s, d.pos[s], d.n)
				}
			}
			d.pos[s] = i + 1
			o.own[s] = true
		case *workerpb.Event_CheckpointBarrier:
			id := t.CheckpointBarrier.CheckpointId
			if d.bars[id] == nil {
				d.bars[id] = map[string]bool{}
				d.cuts[id] = map[string]int{}
			}
			d.bars[id][o.sr+">"+o.op] = true
			for s := range o.own {
				d.cuts[id][s] = d.pos[s]
			}
			w.c.Count("barriers", 1)
			w.c.Trace("  barrier %d of %s at %s: %v", id, o.sr, o.op, d.cuts[id])
			n := 0
			for _, sr := range d.srs {
				if d.bars[id][sr+">"+o.op] {
					n++
				}
			}
			if i := slices.Index(d.ops, o.op); n == len(d.srs) && i >= 0 {
				rg := ref.Ranges(w.groups, len(d.ops))[i]
				k := &snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: o.op, DkvFileUri: fmt.Sprintf("memory:///%s/%d", o.op, id), KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(rg.Start), End: int32(rg.End)}}
				w.busy.Add(1)
				go func() {
					defer w.busy.Done()
					w.wait(w.acks)
					if !d.proc.dead.Load() {
						d.proc.job.HandleOperatorCheckpointComplete(context.Background(), k)
					}
				}()
			}
		}
	}
	return nil
}

// wrote observes published checkpoints.
func (w *world) wrote(p string, b []byte) {
	if !strings.HasSuffix(p, ".snapshot") {
		return
	}
	k := &snapshotpb.JobCheckpoint{}
	if err := proto.Unmarshal(b, k); err != nil {
		w.c.Report("published", "the checkpoint file %s can't be read: %v", p, err)
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.pubs = append(w.pubs, k)
	w.c.Trace("  checkpoint %d published%s", k.Id, w.src.describe(k))
	w.c.Count("checkpoints_published", 1)
}

func (w *world) published() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.pubs)
}
