// Package opx runs real operators, deployed through the job's real Assembly, against a reference
// handler which knows what every invocation must be given.
package opx

import (
	"bytes"
	"cmp"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/config"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/jobs"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/util/vhook"
	"reduction.dev/reduction/workers/operator"
	"verif/harness/dkvx"
	"verif/harness/ref"
	"verif/harness/vlib"
)

// Aspects of the oracles.
var (
	State    = []string{"state", "state-ns", "missing-state"}
	Owner    = []string{"owner"}
	Timers   = []string{"timer-spurious", "timer-early", "timer-order", "timer-due"}
	Marks    = []string{"wm-told", "timer-early"}
	Events   = []string{"event-twice", "event-unknown", "event-order", "event-lost"}
	Cut      = []string{"cut", "cut-contents"}
	Liveness = []string{"deploy", "send", "stuck", "ack"}
)

// Timer identifies one timer.
type Timer struct {
	Key string
	T   int64 // Unix nanoseconds
}

// Entries is namespace -> entry key -> value.
type Entries map[string]map[string]string

// Shadow is the reference state of a set of keys.
type Shadow struct {
	State  map[string]Entries
	Timers map[Timer]bool
}

// NewShadow makes an empty shadow.
func NewShadow() *Shadow {
	return &Shadow{State: map[string]Entries{}, Timers: map[Timer]bool{}}
}

// Clone copies the shadow.
func (s *Shadow) Clone() *Shadow {
	n := NewShadow()
	n.Add(s)
	return n
}

// Add merges (copies of) the other's content.
func (s *Shadow) Add(o *Shadow) {
	for k, es := range o.State {
		ne := Entries{}
		for ns, m := range es {
			nm := map[string]string{}
			for a, b := range m {
				nm[a] = b
			}
			ne[ns] = nm
		}
		s.State[k] = ne
	}
	for t := range o.Timers {
		s.Timers[t] = true
	}
}

// Restrict keeps what a group interval owns.
func (s *Shadow) Restrict(groups, lo, hi int) *Shadow {
	n := NewShadow()
	c := s.Clone()
	for k, e := range c.State {
		if g := ref.Group([]byte(k), groups); g >= lo && g < hi {
			n.State[k] = e
		}
	}
	for t := range c.Timers {
		if g := ref.Group([]byte(t.Key), groups); g >= lo && g < hi {
			n.Timers[t] = true
		}
	}
	return n
}

// Apply applies one key result's mutations.
func (s *Shadow) Apply(key string, muts []*handlerpb.StateMutationNamespace) {
	for _, ns := range muts {
		for _, m := range ns.Mutations {
			es := s.State[key]
			switch t := m.Mutation.(type) {
			case *handlerpb.StateMutation_Put:
				if es == nil {
					es = Entries{}
					s.State[key] = es
				}
				if es[ns.Namespace] == nil {
					es[ns.Namespace] = map[string]string{}
				}
				es[ns.Namespace][string(t.Put.Key)] = string(t.Put.Value)
			case *handlerpb.StateMutation_Delete:
				delete(es[ns.Namespace], string(t.Delete.Key))
				if len(es[ns.Namespace]) == 0 {
					delete(es, ns.Namespace)
				}
				if len(es) == 0 {
					delete(s.State, key)
				}
			}
		}
	}
}

// Action is what the handler does with one event.
type Action struct {
	ID     uint64
	SR     string
	Key    string
	Muts   []*handlerpb.StateMutationNamespace
	Timers []int64
}

// Ckpt is one job checkpoint as the harness collects it.
type Ckpt struct {
	ID     uint64
	Ops    []*snapshotpb.OperatorCheckpoint
	Shadow *Shadow
	cut    map[string]int // per source runner: events sent ahead of the barrier
	Seen   map[string][]uint64
	By     map[string]*Shadow // reference state of each operator at its acknowledgement
	done   chan struct{}      // closed when complete
	want   int
}

// Complete reports whether every operator acknowledged.
func (k *Ckpt) Complete() bool { return len(k.Ops) == k.want }

// Job renders the checkpoint for the assembly, operators in random order.
func (k *Ckpt) Job(r *rand.Rand) *snapshotpb.JobCheckpoint {
	ops := slices.Clone(k.Ops)
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return &snapshotpb.JobCheckpoint{Id: k.ID, OperatorCheckpoints: ops}
}

// Params are the knobs of a world.
type Params struct {
	Groups     int
	MaxBatch   int
	MaxMem     int           // memtable limit bound, 0 keeps the defaults
	TimerCache uint64        // 0 keeps the default
	Latency    time.Duration // of the handler
	Aspects    [][]string
	BigValues  int
	Keys       [][]byte
	Horizon    time.Duration // how far ahead timers are set
	Coarse     bool          // timers on whole seconds, so that many coincide
	NoTimers   bool
	Location   string                                   // working storage, default /work
	FileSystem func(location string) storage.FileSystem // instead of the observed memory
	Delay      time.Duration                            // batching delay with a system timer instead of the harness's
}

// World is one job's operators over several deployments.
type World struct {
	C       *vlib.Case
	R       *rand.Rand
	P       Params
	FS      *dkvx.FS
	mu      sync.Mutex
	nodes   map[string]*Node
	actions map[uint64]*Action
	nextAct uint64
	aspects []string
	Ckpts   map[uint64]*Ckpt
	Cur     *Dep
	depN    int
	base    time.Time
	maxWM   time.Time
	rngMu   sync.Mutex
	rng     *rand.Rand
	// NeedsFault runs before a neighbour answers NeedsTable.
	NeedsFault func(ctx context.Context, from, to, uri string) error
	// HandlerFault may make an invocation fail (called before anything else).
	HandlerFault func(n *Node, req *handlerpb.ProcessEventBatchRequest) error
	// AckFault may make an acknowledgement fail after it was recorded.
	AckFault func(n *Node) error
	PreAck   func(n *Node, req *snapshotpb.OperatorCheckpoint)
	// PreDeploy and PostDeploy run around the deployment of each operator.
	PreDeploy, PostDeploy func(n *Node)
	// Loading runs in the middle of a node's deployment.
	Loading func(n *Node)
}

// Dep is one deployment.
type Dep struct {
	Nodes []*Node
	SRs   []string
	W     *World
	mu    sync.Mutex
	wm    map[string]time.Time // latest watermark sent
	sent  map[string]int
	taken map[uint64]bool // checkpoints begun in this deployment
}

// Node is one operator process.
type Node struct {
	W      *World
	Name   string
	Op     *operator.Operator
	cancel context.CancelFunc
	done   chan error
	timer  *batchTimer

	mu        sync.Mutex
	dep       *Dep
	lo, hi    int
	Sh        *Shadow
	wmSent    map[string]time.Time
	wmAcked   map[string]time.Time
	lastFired int64
	behind    map[string]bool      // runners whose barrier was sent and whose checkpoint isn't taken
	held      map[string]time.Time // watermarks sent behind the barrier
	seen      map[string][]uint64  // per source runner: actions in handler order
	seenSet   map[uint64]bool
	Batches   int
	spurious  int
	Fired     int
	maxPend   int
	dead      bool

	pendingReset func() // what a completed deployment changes
}

type batchTimer struct {
	mu sync.Mutex
	do func()
}

func (t *batchTimer) Set(_ time.Duration, do func()) { t.mu.Lock(); t.do = do; t.mu.Unlock() }
func (t *batchTimer) Stop()                          { t.mu.Lock(); t.do = nil; t.mu.Unlock() }
func (t *batchTimer) take() func() {
	t.mu.Lock()
	defer t.mu.Unlock()
	do := t.do
	t.do = nil
	return do
}

// New makes a world.
func New(c *vlib.Case, p Params) *World {
	w := &World{C: c, R: c.R, P: p, FS: dkvx.Either(c, c.R), nodes: map[string]*Node{}, actions: map[uint64]*Action{},
		Ckpts: map[uint64]*Ckpt{}, aspects: slices.Concat(p.Aspects...), rng: rand.New(rand.NewSource(c.R.Int63()))}
	w.base = time.Unix(int64(c.R.Intn(2_000_000_000)), 0).UTC()
	if c.R.Intn(4) == 0 {
		w.base = time.Unix(0, 0).UTC()
	}
	w.maxWM = w.base
	if len(w.P.Keys) == 0 {
		w.P.Keys = SubjectKeys(c.R, 2+c.R.Intn(20))
	}
	if w.P.Horizon == 0 {
		w.P.Horizon = time.Minute
	}
	vhook.SetTune(w.tune)
	return w
}

func (w *World) tune(p string, v ...any) {
	w.rngMu.Lock()
	defer w.rngMu.Unlock()
	switch p {
	case "dkv.options":
		o := v[0].(*dkv.DBOptions)
		if w.P.MaxMem > 0 {
			d := dkvx.Options(w.rng, w.P.MaxMem)
			o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger = d.MemTableSize, d.TargetFileSize, d.MaxWALSize, d.L0TableNumCompactionTrigger
		}
		o.Logger = dkvx.Quiet
	case "storage.filesystem":
		if w.Loading != nil {
			w.mu.Lock()
			var loading *Node
			for name, n := range w.nodes {
				if strings.Contains(v[0].(string), "/"+name+"/") {
					loading = n
				}
			}
			w.mu.Unlock()
			if loading != nil {
				w.rngMu.Unlock()
				w.Loading(loading)
				w.rngMu.Lock()
			}
		}
		if w.P.FileSystem != nil {
			*v[1].(*storage.FileSystem) = w.P.FileSystem(v[0].(string))
			return
		}
		*v[1].(*storage.FileSystem) = w.FS.At(v[0].(string))
	case "operator.timer_cache_size":
		if w.P.TimerCache > 0 {
			*v[0].(*uint64) = w.P.TimerCache
		}
	}
}

func (w *World) report(sig, format string, args ...any) {
	if slices.Contains(w.aspects, sig) {
		w.C.Report(sig, format, args...)
	}
}

// SubjectKeys draws adversarial subject keys.
func SubjectKeys(r *rand.Rand, n int) [][]byte {
	pool := []string{"", "\x00", "\x00\x00", "a", "ab", "abc", "b", "\xff", "\xff\xff", "\x00\x01a", "user-1", "user-10", "user-2", "\x00\x00\x00\x01a", strings.Repeat("k", 300)}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	var out [][]byte
	for i := 0; i < n; i++ {
		if i < len(pool) && i < n/2+1 {
			out = append(out, []byte(pool[i]))
		} else {
			out = append(out, []byte(fmt.Sprintf("key-%d", i)))
		}
	}
	return out
}

var namespaces = []string{"", "a", "ab", "b", "\x00", "\x01a", "é", "counts", strings.Repeat("n", 127), strings.Repeat("n", 254), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 300), strings.Repeat("n", 256) + "a"}
var entryKeys = []string{"", "a", "ab", "\x00", "\xff", "\xff\xff", "x", "1", "2", "3"}

// newAction draws what the handler will do. Caller holds rngMu.
func (w *World) newAction(key string, wmHint time.Time) *Action {
	r := w.rng
	w.nextAct++
	a := &Action{ID: w.nextAct, Key: key}
	w.fill(a, wmHint)
	w.mu.Lock()
	w.actions[a.ID] = a
	w.mu.Unlock()
	_ = r
	return a
}

func (w *World) fill(a *Action, hint time.Time) {
	r := w.rng
	for i := r.Intn(3); i > 0; i-- {
		ns := &handlerpb.StateMutationNamespace{Namespace: namespaces[r.Intn(len(namespaces))]}
		if r.Intn(2) == 0 {
			ns.Namespace = namespaces[r.Intn(3)]
		}
		for j := r.Intn(4); j > 0; j-- {
			k := []byte(entryKeys[r.Intn(len(entryKeys))])
			if r.Intn(3) == 0 {
				ns.Mutations = append(ns.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: k}}})
				continue
			}
			v := []byte(fmt.Sprintf("%d.%d", a.ID, j))
			switch r.Intn(8) {
			case 0:
				v = []byte{}
			case 1:
				if w.P.BigValues > 0 {
					v = append(v, bytes.Repeat([]byte{'x'}, r.Intn(w.P.BigValues))...)
				}
			}
			ns.Mutations = append(ns.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: k, Value: v}}})
		}
		a.Muts = append(a.Muts, ns)
	}
	if w.P.NoTimers {
		return
	}
	for i := r.Intn(3); i > 0; i-- {
		a.Timers = append(a.Timers, w.timerTime(hint))
	}
}

func (w *World) timerTime(hint time.Time) int64 {
	r := w.rng
	d := time.Duration(r.Int63n(int64(w.P.Horizon)))
	if w.P.Coarse {
		d = d.Truncate(time.Second)
	}
	switch r.Intn(10) {
	case 0:
		d = -d // at or before the watermark: dropped
	case 1:
		d = 0
	case 2:
		d = 1
	}
	return hint.Add(d).UnixNano()
}

// ---- nodes

type fakeJob struct {
	proto.NoopJob
	n *Node
}

func (j fakeJob) OperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
	n, w := j.n, j.n.W
	if w.PreAck != nil {
		w.PreAck(n, req)
	}
	n.mu.Lock()
	sh := n.Sh.Clone()
	seen := map[string][]uint64{}
	for k, v := range n.seen {
		seen[k] = slices.Clone(v)
	}
	lo, hi, dep := n.lo, n.hi, n.dep
	n.release()
	n.mu.Unlock()
	w.mu.Lock()
	defer w.mu.Unlock()
	k := w.Ckpts[req.CheckpointId]
	if k == nil {
		w.report("ack", "operator %s acknowledges checkpoint %d which was never started", n.Name, req.CheckpointId)
		return nil
	}
	if req.OperatorId != n.Name || int(req.KeyGroupRange.GetStart()) != lo || int(req.KeyGroupRange.GetEnd()) != hi {
		w.report("ack", "operator %s with groups [%d,%d) acknowledges checkpoint %d as %v", n.Name, lo, hi, req.CheckpointId, req)
	}
	for _, o := range k.Ops {
		if o.OperatorId == req.OperatorId {
			w.report("ack", "operator %s acknowledges checkpoint %d twice", n.Name, req.CheckpointId)
			return nil
		}
	}
	k.Ops = append(k.Ops, req)
	k.Shadow.Add(sh)
	k.By[n.Name] = sh
	if k.Complete() {
		defer close(k.done)
	}
	// the cut: exactly the events each runner sent to this operator ahead of its barrier
	for _, sr := range dep.SRs {
		want := k.cut[sr+"/"+n.Name]
		if len(seen[sr]) != want {
			w.report("cut", "checkpoint %d of %s was taken after the handler processed %d events of %s, its barrier was sent after %d", k.ID, n.Name, len(seen[sr]), sr, want)
		}
		k.Seen[sr+"/"+n.Name] = seen[sr]
	}
	w.C.Count("operator_checkpoints", 1)
	if w.AckFault != nil {
		return w.AckFault(n)
	}
	return nil
}

// Start starts operator processes.
func (w *World) Start(names ...string) []*Node {
	var out []*Node
	for _, name := range names {
		n := &Node{W: w, Name: name, done: make(chan error, 1), timer: &batchTimer{}, Sh: NewShadow()}
		eb := batching.EventBatcherParams{MaxSize: 1 + w.R.Intn(max(1, w.P.MaxBatch)), MaxDelay: time.Hour, Timer: n.timer}
		if w.P.Delay > 0 {
			eb.Timer, eb.MaxDelay = nil, w.P.Delay
		}
		n.Op = operator.NewOperator(operator.NewOperatorParams{
			ID: name, Host: name, Job: fakeJob{n: n}, UserHandler: n, Clock: clocks.NewFrozenClock(), EventBatching: eb,
			NeighborOperatorFactory: func(sender string, id *jobpb.NodeIdentity) proto.Operator {
				w.mu.Lock()
				defer w.mu.Unlock()
				return &client{w: w, from: sender, to: id.Id}
			},
		})
		n.Op.Logger = dkvx.Quiet
		ctx, cancel := context.WithCancel(context.Background())
		n.cancel = cancel
		go func() { n.done <- n.Op.Start(ctx) }()
		w.mu.Lock()
		w.nodes[name] = n
		w.mu.Unlock()
		out = append(out, n)
	}
	return out
}

// Kill stops a process without ceremony.
func (n *Node) Kill() {
	n.mu.Lock()
	if n.dead {
		n.mu.Unlock()
		return
	}
	n.dead = true
	n.mu.Unlock()
	n.Op.Halt()
	n.cancel()
	select {
	case <-n.done:
	case <-time.After(20 * time.Second):
		n.W.C.Fail("stuck", "operator %s did not stop within 20s", n.Name)
	}
}

// client is how others reach a node.
type client struct {
	w        *World
	from, to string
}

func (c *client) node() *Node  { c.w.mu.Lock(); defer c.w.mu.Unlock(); return c.w.nodes[c.to] }
func (c *client) ID() string   { return c.to }
func (c *client) Host() string { return c.to }
func (c *client) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	n := c.node()
	for _, e := range batch {
		if err := n.Op.HandleEvent(ctx, c.from, e); err != nil {
			return err
		}
	}
	return nil
}
func (c *client) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	n := c.node()
	if c.w.PreDeploy != nil {
		c.w.PreDeploy(n)
	}
	if c.w.PostDeploy != nil {
		defer c.w.PostDeploy(n)
	}
	err := n.Op.HandleDeploy(ctx, req, sink{})
	// a batch of the previous deployment may have reached the handler until here
	n.mu.Lock()
	if n.pendingReset != nil {
		n.pendingReset()
		n.pendingReset = nil
	}
	n.mu.Unlock()
	return err
}
func (c *client) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return c.node().Op.HandleRemoveCheckpoints(ctx, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids})
}
func (c *client) NeedsTable(ctx context.Context, uri string) (bool, error) {
	n := c.node()
	if c.w.NeedsFault != nil {
		if err := c.w.NeedsFault(ctx, c.from, c.to, uri); err != nil {
			return false, err
		}
	}
	if n == nil {
		return false, errors.New("connection refused")
	}
	n.mu.Lock()
	dead := n.dead
	n.mu.Unlock()
	if dead {
		return false, errors.New("connection refused")
	}
	return n.Op.HandleNeedsTable(c.from, uri), nil
}

type sink struct{}

func (sink) Write([]byte) error { return nil }

type fakeSR struct{ id string }

func (s fakeSR) ID() string                                                        { return s.id }
func (s fakeSR) Host() string                                                      { return s.id }
func (s fakeSR) Deploy(context.Context, *workerpb.DeploySourceRunnerRequest) error { return nil }
func (s fakeSR) AssignSplits(context.Context, []*workerpb.SourceSplit) error       { return nil }
func (s fakeSR) StartCheckpoint(context.Context, uint64) error                     { return nil }

// Deploy deploys nodes and source runners, restoring k if not nil.
func (w *World) Deploy(nodes []*Node, srs []string, k *Ckpt) *Dep {
	d := &Dep{Nodes: nodes, SRs: srs, W: w, wm: map[string]time.Time{}, sent: map[string]int{}, taken: map[uint64]bool{}}
	rs := ref.Ranges(w.P.Groups, len(nodes))
	var ops []proto.Operator
	for i, n := range nodes {
		n.mu.Lock()
		lo, hi := rs[i].Start, rs[i].End
		n.pendingReset = func() {
			n.dep, n.lo, n.hi = d, lo, hi
			n.Sh = NewShadow()
			if k != nil {
				n.Sh = k.Shadow.Restrict(w.P.Groups, lo, hi)
			}
			n.behind, n.held = map[string]bool{}, map[string]time.Time{}
			n.wmSent, n.wmAcked = map[string]time.Time{}, map[string]time.Time{}
			n.lastFired, n.seen, n.seenSet = -1<<63, map[string][]uint64{}, map[uint64]bool{}
		}
		n.mu.Unlock()
		ops = append(ops, &client{w: w, from: "job", to: n.Name})
	}
	var sr []proto.SourceRunner
	for _, s := range srs {
		sr = append(sr, fakeSR{s})
	}
	var jc *snapshotpb.JobCheckpoint
	if k != nil {
		jc = k.Job(w.R)
	}
	cfg := &config.Config{WorkerCount: len(nodes), KeyGroupCount: w.P.Groups, WorkingStorageLocation: cmp.Or(w.P.Location, "/work")}
	if err := jobs.NewAssembly(ops, sr).Deploy(cfg, jc); err != nil {
		w.C.Fail("deploy", "deploying %d operators: %v", len(nodes), err)
	}
	w.Cur = d
	w.depN++
	if jc != nil {
		w.C.Trace("deploy %d operators in %d groups from checkpoint %d of %d operators", len(nodes), w.P.Groups, k.ID, len(k.Ops))
		for _, o := range jc.OperatorCheckpoints {
			w.C.Trace("  %s [%d,%d) %s", o.OperatorId, o.KeyGroupRange.GetStart(), o.KeyGroupRange.GetEnd(), o.DkvFileUri)
		}
	} else {
		w.C.Trace("deploy %d operators in %d groups", len(nodes), w.P.Groups)
	}
	w.C.Count("deployments", 1)
	return d
}

// Owner is the node which must receive the key.
func (d *Dep) Owner(key string) *Node {
	return d.Nodes[ref.Owner([]byte(key), d.W.P.Groups, len(d.Nodes))]
}

// Send delivers an event of a runner to a node and waits for the answer.
func (d *Dep) Send(ctx context.Context, n *Node, sr string, ev *workerpb.Event) error {
	return n.Op.HandleEvent(ctx, sr, ev)
}

// NewEvent draws a keyed event of a runner, without sending it.
func (d *Dep) NewEvent(sr string) (*Node, *workerpb.Event, *Action) {
	w := d.W
	w.rngMu.Lock()
	key := string(w.P.Keys[w.rng.Intn(len(w.P.Keys))])
	d.mu.Lock()
	hint := w.maxWM
	for _, t := range d.wm {
		if t.After(hint) {
			hint = t
		}
	}
	d.mu.Unlock()
	a := w.newAction(key, hint)
	a.SR = sr
	w.rngMu.Unlock()
	return d.Owner(key), &workerpb.Event{Event: &workerpb.Event_KeyedEvent{KeyedEvent: &handlerpb.KeyedEvent{
		Key: []byte(key), Timestamp: timestamppb.New(hint), Value: binary.BigEndian.AppendUint64(nil, a.ID)}}}, a
}

// Event sends one keyed event.
func (d *Dep) Event(sr string) {
	n, ev, a := d.NewEvent(sr)
	if err := d.Send(context.Background(), n, sr, ev); err != nil {
		d.W.C.Fail("send", "event %d of %s for key %s to %s: %v", a.ID, sr, dkvx.Short([]byte(a.Key)), n.Name, err)
	}
	d.W.C.Count("events", 1)
}

// Watermark sends a watermark of a runner to every node; exact means nothing else is going on.
func (d *Dep) Watermark(sr string, t time.Time) {
	d.mu.Lock()
	d.wm[sr] = t
	d.mu.Unlock()
	for _, n := range d.Nodes {
		n.mu.Lock()
		n.wmSent[sr], n.wmAcked[sr] = t, t
		n.mu.Unlock()
		if err := d.Send(context.Background(), n, sr, WM(t)); err != nil {
			d.W.C.Fail("send", "watermark of %s to %s: %v", sr, n.Name, err)
		}
	}
	d.W.C.Count("watermarks", 1)
}

// WM renders a watermark event.
func WM(t time.Time) *workerpb.Event {
	return &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{Timestamp: timestamppb.New(t)}}}
}

// Barrier renders a barrier event.
func Barrier(id uint64) *workerpb.Event {
	return &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: &workerpb.CheckpointBarrier{CheckpointId: id}}}
}

// Advance moves a random runner's watermark by up to the horizon.
func (d *Dep) Advance() {
	w := d.W
	sr := d.SRs[w.R.Intn(len(d.SRs))]
	t := d.wm[sr]
	if t.IsZero() {
		t = w.base
	}
	step := time.Duration(w.R.Int63n(int64(w.P.Horizon)))
	switch w.R.Intn(5) {
	case 0:
		step = 0
	case 1:
		step /= 50
	}
	if w.P.Coarse && w.R.Intn(2) == 0 {
		step = step.Truncate(time.Second)
	}
	d.Watermark(sr, t.Add(step))
}

// AdvanceAll moves every runner to t (never backwards).
func (d *Dep) AdvanceAll(t time.Time) {
	for _, sr := range d.SRs {
		if !d.wm[sr].After(t) {
			d.Watermark(sr, t)
		}
	}
}

// Finish advances every runner past everything that is pending.
func (d *Dep) Finish() {
	t := d.W.base
	for _, n := range d.Nodes {
		n.mu.Lock()
		for tm := range n.Sh.Timers {
			if x := time.Unix(0, tm.T); x.After(t) {
				t = x
			}
		}
		n.mu.Unlock()
	}
	d.AdvanceAll(t)
}

// Begin registers a checkpoint.
func (d *Dep) Begin(id uint64) *Ckpt {
	k := &Ckpt{ID: id, Shadow: NewShadow(), cut: map[string]int{}, Seen: map[string][]uint64{}, By: map[string]*Shadow{}, done: make(chan struct{}), want: len(d.Nodes)}
	d.W.mu.Lock()
	d.W.Ckpts[id] = k
	d.taken[id] = true
	d.W.mu.Unlock()
	return k
}

// Checkpoint takes a checkpoint sequentially; runners that haven't sent their barrier yet may
// send more events in between.
func (d *Dep) Checkpoint(id uint64, between int) *Ckpt {
	w := d.W
	k := d.Begin(id)
	order := w.R.Perm(len(d.SRs))
	for i, x := range order {
		sr := d.SRs[x]
		w.mu.Lock()
		for _, n := range d.Nodes {
			k.cut[sr+"/"+n.Name] = d.sentTo(n, sr)
		}
		w.mu.Unlock()
		for _, y := range w.R.Perm(len(d.Nodes)) {
			if err := d.Send(context.Background(), d.Nodes[y], sr, Barrier(id)); err != nil {
				w.C.Fail("send", "barrier %d of %s to %s: %v", id, sr, d.Nodes[y].Name, err)
			}
		}
		for j := 0; j < between && i+1 < len(order); j++ {
			d.Tracked(d.SRs[order[i+1+w.R.Intn(len(order)-i-1)]])
		}
	}
	w.C.Trace("checkpoint %d", id)
	if !k.Complete() {
		w.C.Fail("ack", "checkpoint %d was acknowledged by %d of %d operators after all barriers", id, len(k.Ops), k.want)
	}
	return k
}

func (d *Dep) sentTo(n *Node, sr string) int { return d.sent[sr+"/"+n.Name] }

// Tracked sends an event and counts it for the cuts.
func (d *Dep) Tracked(sr string) {
	n, ev, a := d.NewEvent(sr)
	d.W.mu.Lock()
	d.sent[sr+"/"+n.Name]++
	d.W.mu.Unlock()
	if err := d.Send(context.Background(), n, sr, ev); err != nil {
		d.W.C.Fail("send", "event %d of %s for key %s to %s: %v", a.ID, sr, dkvx.Short([]byte(a.Key)), n.Name, err)
	}
	d.W.C.Count("events", 1)
}

// Flush makes the pending batches reach the handler, through the batch time-out.
func (d *Dep) Flush() {
	for _, n := range d.Nodes {
		if do := n.timer.take(); do != nil {
			do() // hands the token to the operator
		}
		sr := d.SRs[0]
		d.mu.Lock()
		t, ok := d.wm[sr]
		d.mu.Unlock()
		if !ok {
			t = time.Unix(0, 0)
		}
		// passes through the same queue, so the flush is done when it returns
		if err := d.Send(context.Background(), n, sr, WM(t)); err != nil {
			d.W.C.Fail("send", "watermark of %s to %s: %v", sr, n.Name, err)
		}
	}
}

// FlushAll flushes until nothing is pending.
func (d *Dep) FlushAll() {
	for i := 0; i < 50; i++ {
		d.Flush()
		pending := false
		for _, n := range d.Nodes {
			n.timer.mu.Lock()
			pending = pending || n.timer.do != nil
			n.timer.mu.Unlock()
		}
		if !pending {
			return
		}
	}
	d.W.C.Fail("stuck", "batches never drain")
}

// Due checks that every timer at or below the effective watermark has fired.
func (d *Dep) Due() {
	for _, n := range d.Nodes {
		n.mu.Lock()
		eff := n.eff(n.wmAcked)
		for t := range n.Sh.Timers {
			if t.T <= eff.UnixNano() {
				d.W.report("timer-due", "timer of key %s at %v hasn't fired on %s although its watermark is %v", dkvx.Short([]byte(t.Key)), ts(t.T), n.Name, eff)
				break
			}
		}
		n.mu.Unlock()
	}
	d.W.C.Count("due_checks", 1)
}

// Probe sends an event for every key, so that every key's state is compared.
func (d *Dep) Probe() {
	for _, k := range d.W.P.Keys {
		w := d.W
		w.rngMu.Lock()
		w.nextAct++
		a := &Action{ID: w.nextAct, Key: string(k), SR: d.SRs[w.rng.Intn(len(d.SRs))]}
		w.rngMu.Unlock()
		w.mu.Lock()
		w.actions[a.ID] = a
		d.sent[a.SR+"/"+d.Owner(a.Key).Name]++
		w.mu.Unlock()
		n := d.Owner(a.Key)
		if err := d.Send(context.Background(), n, a.SR, &workerpb.Event{Event: &workerpb.Event_KeyedEvent{KeyedEvent: &handlerpb.KeyedEvent{
			Key: k, Timestamp: timestamppb.New(w.base), Value: binary.BigEndian.AppendUint64(nil, a.ID)}}}); err != nil {
			w.C.Fail("send", "event %d of %s for key %s to %s: %v", a.ID, a.SR, dkvx.Short(k), n.Name, err)
		}
	}
	d.FlushAll()
}

// Retain tells every operator which checkpoints to keep. The job does so when a checkpoint of
// this deployment completes; operators without groups may not know earlier ones.
func (d *Dep) Retain(ids ...uint64) error {
	var errs error
	for _, n := range d.Nodes {
		if n.lo == n.hi && !slices.ContainsFunc(ids, func(id uint64) bool { return d.taken[id] }) {
			continue
		}
		errs = errors.Join(errs, n.Op.HandleRemoveCheckpoints(context.Background(), &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids}))
	}
	return errs
}

// Close kills every process.
func (w *World) Close() {
	w.mu.Lock()
	ns := make([]*Node, 0, len(w.nodes))
	for _, n := range w.nodes {
		ns = append(ns, n)
	}
	w.mu.Unlock()
	for _, n := range ns {
		n.Kill()
	}
	vhook.SetTune(nil)
}

func ts(n int64) string { return time.Unix(0, n).UTC().Format(time.RFC3339Nano) }

// eff is the minimum over the runners, the epoch for those that haven't reported.
func (n *Node) eff(m map[string]time.Time) time.Time {
	var e time.Time
	for i, sr := range n.dep.SRs {
		t, ok := m[sr]
		if !ok {
			t = time.Unix(0, 0)
		}
		if i == 0 || t.Before(e) {
			e = t
		}
	}
	return e
}

// ---- the reference handler

// KeyEventBatch implements proto.Handler.
func (n *Node) KeyEventBatch(context.Context, [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	return nil, errors.New("not a source runner")
}

// ProcessEventBatch checks what the operator supplies and answers with the events' actions.
func (n *Node) ProcessEventBatch(ctx context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	w := n.W
	if w.HandlerFault != nil {
		if err := w.HandlerFault(n, req); err != nil {
			return nil, err
		}
	}
	if w.P.Latency > 0 {
		w.rngMu.Lock()
		d := time.Duration(w.rng.Int63n(int64(w.P.Latency)))
		w.rngMu.Unlock()
		time.Sleep(d)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Batches++
	w.C.Count("batches", 1)

	// the watermark
	told := req.Watermark.AsTime()
	lo, hi := n.eff(n.wmAcked), n.eff(n.wmSent)
	if told.Before(lo) || told.After(hi) {
		w.report("wm-told", "%s is told watermark %v, the minimum of its runners is between %v and %v", n.Name, told, lo.UTC(), hi.UTC())
	}

	// the states
	states := map[string]bool{}
	for _, ks := range req.KeyStates {
		key := string(ks.Key)
		states[key] = true
		got := entries(ks.StateEntryNamespaces, func(sig, what string) { w.report(sig, "key %s %s", dkvx.Short(ks.Key), what) })
		if d := diff(got, n.Sh.State[key]); d != "" {
			w.report("state", "%s [%d,%d) key %s of group %d: %s", n.Name, n.lo, n.hi, dkvx.Short(ks.Key), ref.Group(ks.Key, w.P.Groups), d)
		}
		w.C.Count("states_compared", 1)
		for _, m := range got {
			w.C.Count("entries_compared", len(m))
		}
	}

	resp := &handlerpb.ProcessEventBatchResponse{}
	merged := map[string]*handlerpb.KeyResult{}
	w.rngMu.Lock()
	merge := w.rng.Intn(2) == 0
	w.rngMu.Unlock()
	for _, ev := range req.Events {
		var a *Action
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			id := binary.BigEndian.Uint64(t.KeyedEvent.Value)
			w.mu.Lock()
			a = w.actions[id]
			w.mu.Unlock()
			if a == nil || a.Key != string(t.KeyedEvent.Key) {
				w.report("event-unknown", "%s is given event %d for key %s which was never sent", n.Name, id, dkvx.Short(t.KeyedEvent.Key))
				continue
			}
			if n.seenSet[id] {
				w.report("event-twice", "%s is given event %d twice", n.Name, id)
			}
			n.seenSet[id] = true
			if s := n.seen[a.SR]; len(s) > 0 && s[len(s)-1] > id {
				w.report("event-order", "%s is given event %d of %s after event %d", n.Name, id, a.SR, s[len(s)-1])
			}
			n.seen[a.SR] = append(n.seen[a.SR], id)
		case *handlerpb.Event_TimerExpired:
			tm := Timer{string(t.TimerExpired.Key), t.TimerExpired.Timestamp.AsTime().UnixNano()}
			if !n.Sh.Timers[tm] {
				w.report("timer-spurious", "%s: timer of key %s at %s fires but is not pending (fired before, or never set)", n.Name, dkvx.Short([]byte(tm.Key)), ts(tm.T))
				if n.spurious++; n.spurious == 2000 {
					panic("the same timers fire endlessly: " + dkvx.Short([]byte(tm.Key)) + " at " + ts(tm.T))
				}
			}
			delete(n.Sh.Timers, tm)
			if tm.T > hi.UnixNano() {
				w.report("timer-early", "%s: timer of key %s at %s fires while the watermark is at most %v", n.Name, dkvx.Short([]byte(tm.Key)), ts(tm.T), hi.UTC())
			}
			if tm.T < n.lastFired {
				w.report("timer-order", "%s: timer at %s fires after the timer at %s", n.Name, ts(tm.T), ts(n.lastFired))
			}
			n.lastFired = max(n.lastFired, tm.T)
			n.Fired++
			w.C.Count("timers_fired", 1)
			w.rngMu.Lock()
			w.nextAct++
			a = &Action{ID: w.nextAct, Key: tm.Key}
			if w.rng.Intn(2) == 0 {
				w.fill(a, told)
			}
			w.rngMu.Unlock()
		}
		if a == nil {
			continue
		}
		if g := ref.Group([]byte(a.Key), w.P.Groups); g < n.lo || g >= n.hi {
			w.report("owner", "%s owning groups [%d,%d) is given an event for key %s of group %d", n.Name, n.lo, n.hi, dkvx.Short([]byte(a.Key)), g)
		}
		if !states[a.Key] {
			w.report("missing-state", "%s is given an event for key %s without its state", n.Name, dkvx.Short([]byte(a.Key)))
		}
		kr := merged[a.Key]
		if kr == nil || !merge {
			kr = &handlerpb.KeyResult{Key: []byte(a.Key)}
			merged[a.Key] = kr
			resp.KeyResults = append(resp.KeyResults, kr)
		}
		kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, a.Muts...)
		for _, t := range a.Timers {
			kr.NewTimers = append(kr.NewTimers, timestamppb.New(time.Unix(0, t)))
		}
		if len(a.Muts) == 0 && len(a.Timers) == 0 && w.R != nil {
			w.C.Count("empty_results", 1)
		}
	}
	// the effect on the reference
	for _, kr := range resp.KeyResults {
		for _, t := range kr.NewTimers {
			if t.AsTime().After(told) {
				n.Sh.Timers[Timer{string(kr.Key), t.AsTime().UnixNano()}] = true
			}
		}
		n.Sh.Apply(string(kr.Key), kr.StateMutationNamespaces)
	}
	n.maxPend = max(n.maxPend, len(n.Sh.Timers))
	return resp, nil
}

func short(s string) string {
	if len(s) > 20 {
		return fmt.Sprintf("%q..(%d)", s[:20], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func diff(got, want Entries) string {
	var out []string
	for ns, m := range want {
		for k, v := range m {
			g, ok := got[ns][k]
			if !ok {
				out = append(out, fmt.Sprintf("entry %s/%s = %s is missing", short(ns), short(k), short(v)))
			} else if g != v {
				out = append(out, fmt.Sprintf("entry %s/%s is %s, last put was %s", short(ns), short(k), short(g), short(v)))
			}
		}
	}
	for ns, m := range got {
		for k, v := range m {
			if _, ok := want[ns][k]; !ok {
				out = append(out, fmt.Sprintf("entry %s/%s = %s was deleted or never put", short(ns), short(k), short(v)))
			}
		}
	}
	sort.Strings(out)
	if len(out) > 3 {
		out = append(out[:3], fmt.Sprintf("and %d more", len(out)-3))
	}
	return strings.Join(out, "; ")
}

func entries(nss []*handlerpb.StateEntryNamespace, dup func(sig, what string)) Entries {
	got := Entries{}
	for _, ns := range nss {
		if got[ns.Namespace] != nil {
			dup("state-ns", fmt.Sprintf("is given namespace %q twice", ns.Namespace))
		}
		m := map[string]string{}
		for _, e := range ns.Entries {
			if _, d := m[string(e.Key)]; d {
				dup("state", fmt.Sprintf("namespace %s: entry %x is supplied twice", short(ns.Namespace), e.Key))
			}
			m[string(e.Key)] = string(e.Value)
		}
		if len(m) > 0 {
			got[ns.Namespace] = m
		}
	}
	return got
}

// End ends the sources, one after another, while the others may still send events. Once the last
// one did, every event was handled and the operators stop by themselves.
func (d *Dep) End() {
	w, r := d.W, d.W.R
	left := slices.Clone(d.SRs)
	r.Shuffle(len(left), func(i, j int) { left[i], left[j] = left[j], left[i] })
	for len(left) > 0 {
		for i := r.Intn(20); i > 0; i-- {
			if r.Intn(6) == 0 {
				sr := left[r.Intn(len(left))]
				d.mu.Lock()
				t := d.wm[sr]
				d.mu.Unlock()
				if t.IsZero() {
					t = w.base
				}
				d.Watermark(sr, t.Add(time.Duration(r.Int63n(int64(w.P.Horizon)))))
				continue
			}
			d.Tracked(left[r.Intn(len(left))])
		}
		for _, n := range d.Nodes {
			if err := d.Send(context.Background(), n, left[0], &workerpb.Event{Event: &workerpb.Event_SourceComplete{SourceComplete: &workerpb.SourceCompleteEvent{}}}); err != nil {
				w.C.Fail("send", "end of %s to %s: %v", left[0], n.Name, err)
			}
		}
		left = left[1:]
		w.C.Count("completed_sources", 1)
	}
	for _, n := range d.Nodes {
		select {
		case err := <-n.done:
			n.done <- err
		case <-time.After(20 * time.Second):
			w.C.Fail("stuck", "operator %s doesn't stop after its sources ended", n.Name)
		}
		n.mu.Lock()
		for _, sr := range d.SRs {
			if got, want := len(n.seen[sr]), d.sentTo(n, sr); got != want {
				w.C.Report("end-lost", "%s stopped because its sources ended, after its handler was given %d events of %s, which sent %d", n.Name, got, sr, want)
			}
			w.C.Count("ends_compared", 1)
		}
		n.mu.Unlock()
	}
}
