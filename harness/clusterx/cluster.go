package clusterx

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"connectrpc.com/connect"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/jobs"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/util/vhook"
	"reduction.dev/reduction/workers/operator"
	"reduction.dev/reduction/workers/sourcerunner"
	"verif/harness/dkvx"
	"verif/harness/snapx"
	"verif/harness/vlib"
)

// Aspects of the oracles.
var (
	State    = []string{"state", "state-ns", "missing-state", "unknown-event", "order", "checkpoint-state", "final-state", "sink", "timer-spurious", "timer-lost", "checkpoint-open", "restore-id"}
	Source   = []string{"positions", "split-twice"}
	Recovery = []string{"stuck", "restore-id", "deploy-members", "exit"}
	Progress = []string{"stuck"}
)

// Params are the knobs of a world.
type Params struct {
	Workers  int // operators and source runners the job is configured with
	Groups   int
	Splits   int
	Records  int
	Keys     int
	Big      int
	Timers   bool
	MaxBatch int
	MaxMem   int
	Reads    int           // records per read
	Pause    time.Duration // of a read
	Latency  time.Duration // of the handler
	Net      time.Duration // of a message
	Acks     time.Duration // of an acknowledgement
	Refuse   bool          // calls of a dead process fail rather than being retried
	EOI      bool          // readers but the one with split 0 end
	ReadErrs bool
	Aspects  [][]string
}

// World is one job with its workers.
type World struct {
	C    *vlib.Case
	P    Params
	In   *Input
	FS   *dkvx.FS
	Disk *snapx.Disk

	rngMu sync.Mutex
	rng   *rand.Rand

	aspects []string
	hold    sync.RWMutex // write locked to hold off reading
	read    atomic.Int64
	seen    atomic.Int64 // events the handlers were given
	now     atomic.Int64 // the job's clock
	acts    atomic.Int64 // messages delivered

	mu        sync.Mutex
	procs     map[string]*Proc
	job       *Proc
	seq       int
	trig      []*Trigger
	published []uint64
	complete  []uint64 // published ones which have the whole input and all timers
	lost      []string
	reached   int // records that precede the last checkpoint
	floor     uint64
	restored  map[uint64]int
	deploys   int
	sink      map[string]map[string]string // split and key -> operator -> what it wrote last
	kinds     map[string]int
	closing   bool
	lastStart time.Time
}

// Proc is one process: a job, an operator or a source runner.
type Proc struct {
	w    *World
	Kind string // "job", "op", "sr"
	ID   string
	dead chan struct{}
	once sync.Once
	end  chan struct{} // closed when Start returned
	err  error
	quit atomic.Bool // the harness stopped it

	permits    atomic.Int32
	ckPermits  atomic.Int32
	registered atomic.Int32
	calls      atomic.Int32 // being handled
	muted      atomic.Bool

	Job    *jobs.Job
	loc    *snapx.Loc
	op     *operator.Operator
	sr     *sourcerunner.SourceRunner
	cancel context.CancelFunc
}

// Dead reports whether the process was killed.
func (p *Proc) Dead() bool {
	select {
	case <-p.dead:
		return true
	default:
		return false
	}
}

// Gone reports whether the process is not running (anymore).
func (p *Proc) Gone() bool {
	if p.Dead() {
		return true
	}
	select {
	case <-p.end:
		return true
	default:
		return false
	}
}

// Trigger runs once, when the nth message of a kind passes.
type Trigger struct {
	Kind   string
	Nth    int
	Before bool
	Do     func()
	done   chan struct{}
}

// New makes a world.
func New(c *vlib.Case, p Params) *World {
	w := &World{C: c, P: p, FS: dkvx.NewFS(), procs: map[string]*Proc{}, rng: rand.New(rand.NewSource(c.R.Int63())),
		aspects: slices.Concat(p.Aspects...), restored: map[uint64]int{}, sink: map[string]map[string]string{}, kinds: map[string]int{}}
	w.Disk = snapx.NewDisk(w.FS)
	w.Disk.Wrote = w.wrote
	w.In = GenInput(c.R, p.Splits, p.Records, p.Keys, p.Big, p.Timers)
	w.now.Store(time.Unix(1_700_000_000, 0).UnixNano())
	vhook.SetTune(w.tune)
	return w
}

func (w *World) report(sig, format string, args ...any) {
	if slices.Contains(w.aspects, sig) {
		w.C.Report(sig, format, args...)
	}
}

func (w *World) draw(n int) int {
	w.rngMu.Lock()
	defer w.rngMu.Unlock()
	return w.rng.Intn(n)
}

func (w *World) pause(d time.Duration) {
	if d <= 0 {
		return
	}
	w.rngMu.Lock()
	x := time.Duration(w.rng.Int63n(int64(d)))
	if w.rng.Intn(3) > 0 {
		x = 0
	}
	w.rngMu.Unlock()
	if x > 0 {
		time.Sleep(x)
	}
}

func (w *World) tune(p string, v ...any) {
	switch p {
	case "dkv.options":
		o := v[0].(*dkv.DBOptions)
		if w.P.MaxMem > 0 {
			w.rngMu.Lock()
			d := dkvx.Options(w.rng, w.P.MaxMem)
			w.rngMu.Unlock()
			o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger = d.MemTableSize, d.TargetFileSize, d.MaxWALSize, d.L0TableNumCompactionTrigger
		}
		o.Logger = dkvx.Quiet
	case "storage.filesystem":
		loc := v[0].(string)
		var owner *Proc
		w.mu.Lock()
		for id, p := range w.procs {
			if strings.Contains(loc, "/"+id+"/") {
				owner = p
			}
		}
		w.mu.Unlock()
		if owner == nil {
			w.C.Count("late_deploys_ended", 1) // of an earlier case's operator
			runtime.Goexit()
		}
		*v[1].(*storage.FileSystem) = &files{w.FS.At(loc), owner}
	case "sourcerunner.watermark_interval":
		*v[0].(*time.Duration) = 3 * time.Millisecond
	}
}

// ---- files of an operator process, which have no effect after it was killed

type files struct {
	storage.FileSystem
	p *Proc
}

func (p *Proc) must() {
	if p.Dead() {
		runtime.Goexit()
	}
}

// New and Open change nothing, and are called with locks held: a goroutine that ended here
// would block the task queues that all databases of this process share.
func (f *files) New(p string) storage.File  { return &file{f.FileSystem.New(p), f.p} }
func (f *files) Open(p string) storage.File { return &file{f.FileSystem.Open(p), f.p} }
func (f *files) Copy(a, b string) error     { f.p.must(); return f.FileSystem.Copy(a, b) }

type file struct {
	storage.File
	p *Proc
}

func (f *file) Save() error {
	kind := "save-" + ext(f.File.Name())
	f.p.w.passing(kind, true)
	f.p.must()
	err := f.File.Save()
	f.p.w.passing(kind, false)
	f.p.must()
	return err
}
func (f *file) Write(b []byte) (int, error) { f.p.must(); return f.File.Write(b) }
func (f *file) ReadAt(b []byte, off int64) (int, error) {
	f.p.must()
	return f.File.ReadAt(b, off)
}

// Deletions may be cleanups of the garbage collector, whose goroutine must not end.
func (f *file) Delete() error {
	if f.p.Dead() {
		return fs.ErrClosed
	}
	return f.File.Delete()
}
func (f *file) CreateDeleteFunc() func() error {
	d, p := f.File.CreateDeleteFunc(), f.p
	return func() error {
		if p.Dead() {
			return fs.ErrClosed
		}
		return d()
	}
}

func ext(p string) string {
	if i := strings.LastIndexByte(p, '.'); i >= 0 && !strings.Contains(p[i:], "/") {
		return p[i+1:]
	}
	return "checkpoints"
}

// ---- the job's disk

type store struct {
	*snapx.Loc
	p *Proc
}

func (s *store) Write(p string, r io.Reader) (string, error) {
	s.p.w.passing("store-write", true)
	uri, err := s.Loc.Write(p, r)
	s.p.w.passing("store-write", false)
	if s.p.Dead() {
		return "", snapx.ErrCrashed
	}
	return uri, err
}

func (s *store) Remove(ps ...string) error {
	s.p.w.passing("store-remove", true)
	return s.Loc.Remove(ps...)
}

func (w *World) wrote(p string, b []byte) {
	if !strings.HasSuffix(p, ".snapshot") {
		return
	}
	k := decodeJob(b)
	if k == nil {
		w.report("checkpoint-open", "snapshot file %s can't be decoded", p)
		return
	}
	if strings.Contains(p, "savepoint") {
		return
	}
	w.C.Count("checkpoints_published", 1)
	w.C.Trace("checkpoint %d is published", k.Id)
	end := w.verify(k)
	w.mu.Lock()
	w.published = append(w.published, k.Id)
	if end {
		w.complete = append(w.complete, k.Id)
	}
	w.mu.Unlock()
}

// ---- network

// passing counts a message and runs what waits for it.
func (w *World) passing(kind string, before bool) {
	w.acts.Add(1)
	var do []*Trigger
	w.mu.Lock()
	if before {
		w.kinds[kind]++
	}
	w.trig = slices.DeleteFunc(w.trig, func(t *Trigger) bool {
		if t.Kind != kind || t.Before != before {
			return false
		}
		t.Nth--
		if t.Nth <= 0 {
			do = append(do, t)
			return true
		}
		return false
	})
	w.mu.Unlock()
	for _, t := range do {
		t.Do()
		close(t.done)
	}
}

// Arm installs a trigger and returns a channel closed when it ran.
func (w *World) Arm(kind string, nth int, before bool, do func()) *Trigger {
	t := &Trigger{Kind: kind, Nth: nth, Before: before, Do: do, done: make(chan struct{})}
	w.mu.Lock()
	w.trig = append(w.trig, t)
	w.mu.Unlock()
	return t
}

// Disarm removes a trigger, reporting whether it hasn't run.
func (w *World) Disarm(t *Trigger) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.trig)
	w.trig = slices.DeleteFunc(w.trig, func(x *Trigger) bool { return x == t })
	return len(w.trig) < n
}

var errRefused = errors.New("dial tcp: connection refused")
var errDead = errors.New("the process is dead")

// retried tells whether the RPC client sends a request again after this failure.
func retried(err error) bool {
	switch connect.CodeOf(err) {
	case connect.CodeUnavailable, connect.CodeDeadlineExceeded, connect.CodeResourceExhausted:
		return true
	}
	return false
}

// call delivers a message and its answer.
func (w *World) call(ctx context.Context, from *Proc, to func() *Proc, kind string, f func(ctx context.Context, to *Proc) error) error {
	for {
		if from.Dead() {
			return errDead
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		w.pause(w.P.Net)
		w.passing(kind, true)
		if from.Dead() {
			return errDead
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		t := to()
		if t == nil || t.Gone() {
			if w.P.Refuse {
				return errRefused
			}
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-from.dead:
				return errDead
			case <-time.After(time.Millisecond):
			}
			continue
		}
		sctx, cancel := context.WithCancel(ctx)
		res := make(chan error, 1)
		done := make(chan struct{})
		from.calls.Add(1)
		go func() {
			defer from.calls.Add(-1)
			defer close(done)
			ok := false
			defer func() {
				if !ok {
					res <- errDead
				}
			}()
			err := f(sctx, t)
			ok = true
			res <- err
		}()
		var err error
		select {
		case err = <-res:
		case <-ctx.Done():
			err = ctx.Err()
		case <-t.dead:
			err = errDead
		case <-from.dead:
			err = errDead
		}
		cancel()
		// A message that its sender gave up isn't handled after later ones, in this network.
		select {
		case <-done:
		case <-t.dead:
		case <-time.After(200 * time.Millisecond):
			w.C.Count("slow_handlers", 1)
		}
		if from.Dead() {
			return errDead
		}
		if t.Dead() {
			if w.P.Refuse {
				return errRefused
			}
			continue // closed connections are retried
		}
		if err != nil && retried(err) && ctx.Err() == nil {
			select {
			case <-ctx.Done():
			case <-time.After(time.Millisecond):
			}
			continue
		}
		w.passing(kind, false)
		if from.Dead() {
			return errDead
		}
		if err == nil {
			w.pause(w.P.Net)
		}
		return err
	}
}

func (w *World) proc(id string) *Proc { w.mu.Lock(); defer w.mu.Unlock(); return w.procs[id] }
func (w *World) curJob() *Proc        { w.mu.Lock(); defer w.mu.Unlock(); return w.job }

// opClient is an operator as another process sees it.
type opClient struct {
	w    *World
	from *Proc
	as   string
	node *jobpb.NodeIdentity
}

func (c *opClient) ID() string   { return c.node.Id }
func (c *opClient) Host() string { return c.node.Host }
func (c *opClient) to() *Proc    { return c.w.proc(c.node.Id) }
func (c *opClient) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	return c.w.call(ctx, c.from, c.to, "events", func(ctx context.Context, t *Proc) error {
		for _, e := range batch {
			if e.GetCheckpointBarrier() != nil {
				c.w.passing("barrier", true)
			}
			if e.GetSourceComplete() != nil {
				c.w.C.Count("sources_complete", 1)
			}
			if err := t.op.HandleEvent(ctx, c.as, e); err != nil {
				return err
			}
			if e.GetCheckpointBarrier() != nil {
				c.w.passing("barrier", false)
			}
		}
		return nil
	})
}
func (c *opClient) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	return c.w.call(ctx, c.from, c.to, "op-deploy", func(ctx context.Context, t *Proc) error {
		c.w.deploying(c.from, t, req)
		return t.op.HandleDeploy(ctx, req, &sink{c.w, t})
	})
}
func (c *opClient) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return c.w.call(ctx, c.from, c.to, "retain", func(ctx context.Context, t *Proc) error {
		return t.op.HandleRemoveCheckpoints(ctx, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids})
	})
}
func (c *opClient) NeedsTable(ctx context.Context, uri string) (needed bool, err error) {
	// the answer must not be written by a goroutine that outlives the call
	var n atomic.Bool
	err = c.w.call(ctx, c.from, c.to, "needs", func(ctx context.Context, t *Proc) error {
		n.Store(t.op.HandleNeedsTable(c.as, uri))
		return nil
	})
	return n.Load(), err
}

type srClient struct {
	w    *World
	from *Proc
	node *jobpb.NodeIdentity
}

func (c *srClient) ID() string   { return c.node.Id }
func (c *srClient) Host() string { return c.node.Host }
func (c *srClient) to() *Proc    { return c.w.proc(c.node.Id) }
func (c *srClient) Deploy(ctx context.Context, req *workerpb.DeploySourceRunnerRequest) error {
	return c.w.call(ctx, c.from, c.to, "sr-deploy", func(ctx context.Context, t *Proc) error {
		c.w.starting(c.from)
		return t.sr.HandleDeploy(ctx, req)
	})
}
func (c *srClient) AssignSplits(ctx context.Context, s []*workerpb.SourceSplit) error {
	return c.w.call(ctx, c.from, c.to, "assign", func(ctx context.Context, t *Proc) error { return t.sr.HandleAssignSplits(s) })
}
func (c *srClient) StartCheckpoint(ctx context.Context, id uint64) error {
	return c.w.call(ctx, c.from, c.to, "start-ckpt", func(ctx context.Context, t *Proc) error {
		t.sr.HandleStartCheckpoint(ctx, id)
		return nil
	})
}

// jobClient is the job as a worker sees it.
type jobClient struct {
	w *World
	p *Proc
}

func (c *jobClient) to() *Proc { return c.w.curJob() }
func (c *jobClient) RegisterSourceRunner(ctx context.Context, id *jobpb.NodeIdentity) error {
	err := c.w.call(ctx, c.p, c.to, "register", func(ctx context.Context, t *Proc) error { t.Job.HandleRegisterSourceRunner(id); return nil })
	if err == nil {
		c.p.registered.Add(1)
	}
	return err
}
func (c *jobClient) DeregisterSourceRunner(ctx context.Context, id *jobpb.NodeIdentity) error {
	return c.w.call(ctx, c.p, c.to, "deregister", func(ctx context.Context, t *Proc) error { t.Job.HandleDeregisterSourceRunner(id); return nil })
}
func (c *jobClient) RegisterOperator(ctx context.Context, id *jobpb.NodeIdentity) error {
	err := c.w.call(ctx, c.p, c.to, "register", func(ctx context.Context, t *Proc) error { t.Job.HandleRegisterOperator(id); return nil })
	if err == nil {
		c.p.registered.Add(1)
	}
	return err
}
func (c *jobClient) DeregisterOperator(ctx context.Context, id *jobpb.NodeIdentity) error {
	return c.w.call(ctx, c.p, c.to, "deregister", func(ctx context.Context, t *Proc) error { t.Job.HandleDeregisterOperator(id); return nil })
}
func (c *jobClient) OperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
	c.w.pause(c.w.P.Acks)
	return c.w.call(ctx, c.p, c.to, "op-ack", func(ctx context.Context, t *Proc) error { return t.Job.HandleOperatorCheckpointComplete(ctx, req) })
}
func (c *jobClient) OnSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	c.w.pause(c.w.P.Acks)
	return c.w.call(ctx, c.p, c.to, "sr-ack", func(ctx context.Context, t *Proc) error {
		return t.Job.HandleSourceRunnerCheckpointComplete(ctx, req)
	})
}
func (c *jobClient) NotifySplitsFinished(ctx context.Context, id string, splits []string) error {
	return c.w.call(ctx, c.p, c.to, "finished", func(ctx context.Context, t *Proc) error { return t.Job.HandleNotifySplitsFinished(id, splits) })
}

// ---- clocks

type clock struct {
	clocks.SystemClock
	p *Proc
}

func (c *clock) Now() time.Time { return time.Unix(0, c.p.w.now.Load()) }

// Every runs fn when the harness permits it.
func (c *clock) Every(d time.Duration, fn func(*clocks.EveryContext), label string) *clocks.Ticker {
	permits := &c.p.permits
	if d >= 30*time.Second {
		permits = &c.p.ckPermits
	} else {
		permits.Store(1)
	}
	return c.SystemClock.Every(time.Millisecond, func(*clocks.EveryContext) {
		if c.p.Dead() {
			return
		}
		for n := permits.Load(); ; n = permits.Load() {
			if n <= 0 {
				return
			}
			if permits.CompareAndSwap(n, n-1) {
				break
			}
		}
		fn(&clocks.EveryContext{})
	}, label)
}

// ---- processes

func (w *World) newProc(kind, id string) *Proc {
	return &Proc{w: w, Kind: kind, ID: id, dead: make(chan struct{}), end: make(chan struct{})}
}

// StartJob starts a job process on the disk.
func (w *World) StartJob(workers int) {
	w.mu.Lock()
	w.seq++
	p := w.newProc("job", fmt.Sprintf("job-%d", w.seq))
	w.mu.Unlock()
	if old := w.curJob(); old != nil {
		for i := 0; i < 400 && old.calls.Load() > 0; i++ {
			time.Sleep(500 * time.Microsecond)
		}
	}
	p.loc = w.Disk.Mount()
	errs := make(chan error, 100)
	go func() {
		for {
			select {
			case err := <-errs:
				if !p.Dead() {
					w.C.Count("job_errors", 1)
					w.C.Trace("job error: %v", err)
				}
			case <-p.dead:
				for {
					select {
					case <-errs:
					case <-time.After(time.Second):
						return
					}
				}
			}
		}
	}()
	j, err := jobs.New(&jobs.NewParams{
		JobConfig: &config.Config{WorkerCount: workers, KeyGroupCount: w.P.Groups, WorkingStorageLocation: "/work", SavepointStorageLocation: "/save",
			Sources: []connectors.SourceConfig{source{w}}},
		Clock: &clock{p: p}, Store: &store{p.loc, p}, Logger: dkvx.Quiet, ErrChan: errs,
		OperatorFactory: func(sender string, n *jobpb.NodeIdentity) proto.Operator {
			return &opClient{w, p, sender, n}
		},
		SourceRunnerFactory: func(n *jobpb.NodeIdentity) proto.SourceRunner { return &srClient{w, p, n} },
	})
	if err != nil {
		w.report("stuck", "the job can't be started: %v", err)
		w.report("checkpoint-open", "the job can't be started: %v", err)
		w.C.StopIfFailed()
		w.C.Fail("harness", "the job can't be started: %v", err)
	}
	p.Job = j
	w.mu.Lock()
	w.P.Workers = workers
	w.job = p
	w.floor = 0
	w.mu.Unlock()
	w.C.Trace("%s starts with %d workers", p.ID, workers)
	w.C.Count("jobs_started", 1)
}

func (w *World) batching() batching.EventBatcherParams {
	return batching.EventBatcherParams{MaxSize: 1 + w.draw(max(1, w.P.MaxBatch)), MaxDelay: time.Duration(1+w.draw(3)) * time.Millisecond}
}

// StartOp starts an operator process.
func (w *World) StartOp() *Proc {
	x := w.draw(1000)
	w.mu.Lock()
	w.seq++
	p := w.newProc("op", fmt.Sprintf("op-%03d-%d", x, w.seq))
	w.mu.Unlock()
	p.op = operator.NewOperator(operator.NewOperatorParams{
		ID: p.ID, Host: p.ID, Job: &jobClient{w, p}, UserHandler: &handler{w, p}, Clock: &clock{p: p}, EventBatching: w.batching(),
		NeighborOperatorFactory: func(sender string, n *jobpb.NodeIdentity) proto.Operator { return &opClient{w, p, sender, n} },
	})
	p.op.Logger = dkvx.Quiet
	w.launch(p, p.op.Start)
	return p
}

// StartSR starts a source runner process.
func (w *World) StartSR() *Proc {
	p := w.newProc("sr", "")
	p.sr = sourcerunner.New(sourcerunner.NewParams{
		Host: "sr", UserHandler: &handler{w, p}, Job: &jobClient{w, p}, Clock: &clock{p: p}, EventBatching: w.batching(),
		OperatorFactory: func(sender string, n *jobpb.NodeIdentity) proto.Operator { return &opClient{w, p, sender, n} },
		SourceReaderFactory: func(*jobconfigpb.Source) connectors.SourceReader {
			w.rngMu.Lock()
			defer w.rngMu.Unlock()
			return &reader{w: w, p: p, r: rand.New(rand.NewSource(w.rng.Int63())), cursors: map[int]int{}}
		},
	})
	p.sr.Logger = dkvx.Quiet
	p.ID = p.sr.ID
	w.launch(p, p.sr.Start)
	return p
}

func (w *World) launch(p *Proc, start func(context.Context) error) {
	ctx, cancel := context.WithCancel(context.Background())
	p.cancel = cancel
	w.mu.Lock()
	w.procs[p.ID] = p
	w.mu.Unlock()
	w.C.Trace("%s starts", p.ID)
	go func() {
		defer close(p.end)
		p.err = start(ctx)
	}()
}

// Kill ends a process without any goodbye.
func (w *World) Kill(p *Proc) {
	p.once.Do(func() {
		p.quit.Store(true)
		close(p.dead)
		w.C.Trace("%s is killed", p.ID)
		w.C.Count("killed_"+p.Kind, 1)
		switch p.Kind {
		case "job":
			p.loc.Crash()
			go p.Job.Close()
		case "op":
			go func() { p.op.Halt(); p.cancel() }()
		case "sr":
			go func() { p.sr.Halt(); p.cancel() }()
		}
	})
}

// Stop shuts a worker process down.
func (w *World) Stop(p *Proc) {
	p.quit.Store(true)
	w.C.Trace("%s is stopped", p.ID)
	w.C.Count("stopped_"+p.Kind, 1)
	switch p.Kind {
	case "op":
		p.op.Stop()
	case "sr":
		p.sr.Stop()
	}
}

// Alive lists running processes of a kind.
func (w *World) Alive(kind string) []*Proc {
	w.mu.Lock()
	var out []*Proc
	for _, p := range w.procs {
		if p.Kind == kind && !p.Gone() && !p.quit.Load() {
			out = append(out, p)
		}
	}
	w.mu.Unlock()
	slices.SortFunc(out, func(a, b *Proc) int { return strings.Compare(a.ID, b.ID) })
	return out
}

// Beat lets every worker send a heartbeat.
func (w *World) Beat() {
	for _, p := range append(w.Alive("op"), w.Alive("sr")...) {
		if !p.muted.Load() && p.permits.Load() < 2 {
			p.permits.Add(1)
		}
	}
}

// Tick lets the job begin a checkpoint.
func (w *World) Tick() {
	if j := w.curJob(); j != nil && j.ckPermits.Load() < 1 {
		j.ckPermits.Add(1)
	}
}

// Expire passes enough time for the heartbeats of workers that don't send any to expire.
func (w *World) Expire() bool {
	for i := 0; i < 2; i++ {
		w.now.Add(int64(3 * time.Second))
		if !w.beats(2) {
			return false
		}
	}
	return true
}

// beats waits until every live worker registered n more times.
func (w *World) beats(n int32) bool {
	type at struct {
		p *Proc
		n int32
	}
	var want []at
	for _, p := range append(w.Alive("op"), w.Alive("sr")...) {
		if !p.muted.Load() {
			want = append(want, at{p, p.registered.Load() + n})
		}
	}
	deadline := time.Now().Add(20 * time.Second)
	for {
		ok := true
		for _, x := range want {
			if !x.p.Gone() && !x.p.quit.Load() && x.p.registered.Load() < x.n {
				ok = false
			}
		}
		if ok {
			return true
		}
		if j := w.curJob(); j == nil || j.Dead() {
			return false
		}
		if time.Now().After(deadline) {
			w.report("stuck", "the job doesn't answer heartbeats: %v", dump(w))
			return false
		}
		w.Beat()
		time.Sleep(500 * time.Microsecond)
	}
}

func dump(w *World) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []string
	for id, p := range w.procs {
		if !p.Gone() {
			out = append(out, fmt.Sprintf("%s(registered %d)", id, p.registered.Load()))
		}
	}
	slices.Sort(out)
	return strings.Join(out, " ") + fmt.Sprintf(" read %d given %d messages %d", w.read.Load(), w.seen.Load(), w.acts.Load())
}

// Close ends everything.
func (w *World) Close() {
	w.mu.Lock()
	var ps []*Proc
	for _, p := range w.procs {
		ps = append(ps, p)
	}
	if w.job != nil {
		ps = append(ps, w.job)
	}
	for k, n := range w.kinds {
		w.C.Count("messages_"+k, n)
	}
	w.closing = true
	w.mu.Unlock()
	for _, p := range ps {
		p.once.Do(func() {
			p.quit.Store(true)
			close(p.dead)
			switch p.Kind {
			case "job":
				p.loc.Crash()
				go p.Job.Close()
			case "op":
				p.op.Halt()
				p.cancel()
			case "sr":
				p.sr.Halt()
				p.cancel()
			}
		})
	}
	end := time.After(2 * time.Second)
	for _, p := range ps {
		if p.Kind == "job" {
			continue
		}
		select {
		case <-p.end:
		case <-end:
			w.C.Count("slow_ends", 1)
		}
	}
	// A deployment that began in this world must not open a database of its own.
	vhook.SetTune(func(p string, v ...any) {
		if p == "storage.filesystem" {
			runtime.Goexit()
		}
	})
}
