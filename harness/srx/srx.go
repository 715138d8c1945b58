// Package srx drives the real SourceRunner with generated splits, a keying handler and
// recording operators, and checks what the operators received.
package srx

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/util/vhook"
	"reduction.dev/reduction/workers/sourcerunner"
	"verif/harness/ref"
	"verif/harness/vlib"
)

// Keyed is one keyed event a record maps to. ID is unique over the whole case.
type Keyed struct {
	ID         uint32
	Split, Seq int
	Key        []byte
	TS         time.Time
}

// Input is the content of all splits: Splits[s][seq] are the record's keyed events.
type Input struct {
	Splits [][][]Keyed
	byID   map[uint32]*Keyed
}

// Shape is how timestamps are drawn.
type Shape int

const (
	Ordered Shape = iota
	Jitter
	Reverse
	Wild
)

// GenInput makes splits with up to maxRecs records each.
func GenInput(r *rand.Rand, splits, maxRecs int, keys [][]byte, shape Shape) *Input {
	in := &Input{byID: map[uint32]*Keyed{}}
	id := uint32(1)
	base := time.Unix(int64(r.Intn(3))*1_000_000, 0)
	for s := 0; s < splits; s++ {
		n := r.Intn(maxRecs + 1)
		recs := make([][]Keyed, n)
		for q := range recs {
			k := 1
			switch r.Intn(12) {
			case 0:
				k = 0
			case 1:
				k = 2 + r.Intn(2)
			}
			for i := 0; i < k; i++ {
				var ts time.Time
				switch shape {
				case Ordered:
					ts = base.Add(time.Duration(q) * time.Second)
				case Jitter:
					ts = base.Add(time.Duration(q*1000+r.Intn(5000)-2500) * time.Millisecond)
				case Reverse:
					ts = base.Add(-time.Duration(q) * time.Minute)
				case Wild:
					ts = time.Unix(r.Int63n(4_000_000_000)-1_000_000_000, r.Int63n(1e9))
				}
				recs[q] = append(recs[q], Keyed{ID: id, Split: s, Seq: q, Key: keys[r.Intn(len(keys))], TS: ts})
				id++
			}
		}
		in.Splits = append(in.Splits, recs)
	}
	for s := range in.Splits {
		for q := range in.Splits[s] {
			for i := range in.Splits[s][q] {
				k := &in.Splits[s][q][i]
				in.byID[k.ID] = k
			}
		}
	}
	return in
}

// Keys makes n distinct keys of odd shapes.
func Keys(r *rand.Rand, n int) [][]byte {
	seen := map[string]bool{}
	var keys [][]byte
	for len(keys) < n {
		var k []byte
		switch r.Intn(5) {
		case 0:
			k = []byte(fmt.Sprintf("user-%d", r.Intn(10*n)))
		case 1:
			k = bytes.Repeat([]byte{byte(r.Intn(3)) * 0x7f}, r.Intn(6))
		default:
			k = make([]byte, r.Intn(20))
			r.Read(k)
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			keys = append(keys, k)
		}
	}
	return keys
}

// Rec is a record's place.
type Rec struct{ Split, Seq int }

// EncodeRec is the record as the source reader returns it.
func EncodeRec(s, q int) []byte { return []byte(fmt.Sprintf("%d:%d", s, q)) }

// DecodeRec reverses EncodeRec.
func DecodeRec(b []byte) Rec {
	a, c, _ := strings.Cut(string(b), ":")
	s, _ := strconv.Atoi(a)
	q, _ := strconv.Atoi(c)
	return Rec{s, q}
}

// SplitState is how a split's position is marshalled.
func SplitState(s, cursor int) []byte { return []byte(fmt.Sprintf("%d=%d", s, cursor)) }

// ParseSplitState reverses SplitState.
func ParseSplitState(b []byte) (s, cursor int) {
	a, c, _ := strings.Cut(string(b), "=")
	s, _ = strconv.Atoi(a)
	cursor, _ = strconv.Atoi(c)
	return
}

// ReadKnobs tune a reader.
type ReadKnobs struct {
	MaxBatch  int           // records per ReadEvents
	Pause     time.Duration // maximum pause per read
	ErrEvery  int           // one in ErrEvery reads fails with a retryable error (0 = never)
	EOI       bool          // report end of input when the assigned splits are exhausted
	PauseOnce map[int]time.Duration
}

// Reader is a connectors.SourceReader over an Input.
type Reader struct {
	in    *Input
	r     *rand.Rand
	knobs ReadKnobs

	mu       sync.Mutex
	cursors  map[int]int
	order    []int // assigned splits in assignment order
	assigned []string
	Order    []Rec // records in the order they were read
	reads    int
	inCall   atomic.Int32
	onRace   func(string)
}

func (r *Reader) enter(what string) func() {
	if r.inCall.Add(1) != 1 {
		r.onRace("source reader used concurrently: " + what)
	}
	return func() { r.inCall.Add(-1) }
}

// AssignSplits implements connectors.SourceReader.
func (r *Reader) AssignSplits(splits []*workerpb.SourceSplit) error {
	defer r.enter("AssignSplits")()
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range splits {
		id, _ := strconv.Atoi(s.SplitId)
		cur := 0
		if len(s.Cursor) > 0 {
			_, cur = ParseSplitState(s.Cursor)
		}
		r.assigned = append(r.assigned, s.SplitId)
		if _, ok := r.cursors[id]; ok {
			r.onRace("split assigned twice to a reader: " + s.SplitId)
		}
		r.cursors[id] = cur
		r.order = append(r.order, id)
	}
	return nil
}

// ReadEvents implements connectors.SourceReader.
func (r *Reader) ReadEvents() ([][]byte, error) {
	defer r.enter("ReadEvents")()
	r.mu.Lock()
	r.reads++
	n := r.reads
	var d time.Duration
	if r.knobs.Pause > 0 {
		d = time.Duration(r.r.Int63n(int64(r.knobs.Pause)))
	}
	fail := r.knobs.ErrEvery > 0 && r.r.Intn(r.knobs.ErrEvery) == 0
	r.mu.Unlock()
	if p, ok := r.knobs.PauseOnce[n]; ok {
		d += p
	}
	if d > 0 {
		time.Sleep(d)
	}
	if fail {
		return nil, connectors.NewRetryableError(errors.New("injected read failure"))
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	var open []int
	for _, s := range r.order {
		if r.cursors[s] < len(r.in.Splits[s]) {
			open = append(open, s)
		}
	}
	if len(open) == 0 {
		if r.knobs.EOI && len(r.cursors) == len(r.in.Splits) {
			return nil, connectors.ErrEndOfInput
		}
		r.mu.Unlock()
		time.Sleep(500 * time.Microsecond)
		r.mu.Lock()
		return nil, nil
	}
	var out [][]byte
	for i := 1 + r.r.Intn(r.knobs.MaxBatch); i > 0 && len(open) > 0; i-- {
		k := r.r.Intn(len(open))
		s := open[k]
		q := r.cursors[s]
		out = append(out, EncodeRec(s, q))
		r.Order = append(r.Order, Rec{s, q})
		r.cursors[s] = q + 1
		if q+1 >= len(r.in.Splits[s]) {
			open = slices.Delete(open, k, k+1)
		}
	}
	if len(open) == 0 && r.knobs.EOI && len(r.cursors) == len(r.in.Splits) && r.r.Intn(2) == 0 {
		return out, connectors.ErrEndOfInput // the last records come with the end
	}
	return out, nil
}

// Checkpoint implements connectors.SourceReader.
func (r *Reader) Checkpoint() [][]byte {
	defer r.enter("Checkpoint")()
	r.mu.Lock()
	defer r.mu.Unlock()
	var out [][]byte
	for _, s := range r.order {
		out = append(out, SplitState(s, r.cursors[s]))
	}
	return out
}

// ReadCount is the number of records read so far.
func (r *Reader) ReadCount() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Order)
}

// Handler is the keying half of a user handler.
type Handler struct {
	in  *Input
	mu  sync.Mutex
	r   *rand.Rand
	Max time.Duration // maximum latency

	inFlight, maxInFlight int
	Batches               int
	OutOfOrder            int
	FailAt, Failed        int // fail the FailAt-th call
	started, lastDone     int
}

// KeyEventBatch implements proto.Handler.
func (h *Handler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	h.mu.Lock()
	h.Batches++
	h.started++
	me := h.started
	h.inFlight++
	h.maxInFlight = max(h.maxInFlight, h.inFlight)
	var d time.Duration
	if h.Max > 0 {
		switch h.r.Intn(4) {
		case 0:
		case 1:
			d = h.Max
		default:
			d = time.Duration(h.r.Int63n(int64(h.Max)))
		}
	}
	fail := h.FailAt == me
	if fail {
		h.Failed++
	}
	h.mu.Unlock()
	if d > 0 {
		select {
		case <-time.After(d):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if fail {
		return nil, errors.New("injected keying failure")
	}
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for i, e := range events {
		rec := DecodeRec(e)
		out[i] = []*handlerpb.KeyedEvent{}
		for _, k := range h.in.Splits[rec.Split][rec.Seq] {
			out[i] = append(out[i], &handlerpb.KeyedEvent{
				Key: bytes.Clone(k.Key), Timestamp: timestamppb.New(k.TS),
				Value: binary.BigEndian.AppendUint32(nil, k.ID),
			})
		}
	}
	h.mu.Lock()
	h.inFlight--
	if me < h.lastDone {
		h.OutOfOrder++
	}
	h.lastDone = max(h.lastDone, me)
	h.mu.Unlock()
	return out, nil
}

// ProcessEventBatch implements proto.Handler.
func (h *Handler) ProcessEventBatch(context.Context, *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	return nil, errors.New("not an operator")
}

// Entry is one event an operator received.
type Entry struct {
	ID      uint32 // keyed event
	Key     []byte
	TS      time.Time
	Barrier uint64
	WM      *time.Time
	Done    bool
}

func (e Entry) String() string {
	switch {
	case e.WM != nil:
		return "wm " + e.WM.UTC().Format(time.RFC3339Nano)
	case e.Barrier > 0:
		return fmt.Sprintf("barrier %d", e.Barrier)
	case e.Done:
		return "complete"
	}
	return fmt.Sprintf("#%d", e.ID)
}

// Op is a recording operator.
type Op struct {
	proto.UnimplementedOperator
	id  string
	r   *rand.Rand
	max time.Duration
	dep *Deployment

	mu      sync.Mutex
	Log     []Entry
	Batches int
	busy    atomic.Int32
	FailAt  int // fail the FailAt-th batch (1-based), 0 = never
}

// ID implements proto.Operator.
func (o *Op) ID() string { return o.id }

// Host implements proto.Operator.
func (o *Op) Host() string { return o.id }

// HandleEventBatch implements proto.Operator.
func (o *Op) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	if o.busy.Add(1) != 1 {
		o.dep.w.report("concurrent", "two batches are being delivered to operator %s at once", o.id)
	}
	defer o.busy.Add(-1)
	o.mu.Lock()
	o.Batches++
	n := o.Batches
	var d time.Duration
	if o.max > 0 && o.r.Intn(3) > 0 {
		d = time.Duration(o.r.Int63n(int64(o.max)))
	}
	o.mu.Unlock()
	if d > 0 {
		select {
		case <-time.After(d):
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	if ctx.Err() != nil {
		return ctx.Err()
	}
	if o.FailAt == n {
		return errors.New("injected delivery failure")
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.FailAt > 0 && n > o.FailAt {
		o.dep.w.report("after-failure", "operator %s got batch %d after batch %d failed", o.id, n, o.FailAt)
	}
	for _, e := range batch {
		var en Entry
		switch t := e.Event.(type) {
		case *workerpb.Event_KeyedEvent:
			en.ID = binary.BigEndian.Uint32(t.KeyedEvent.Value)
			en.Key = bytes.Clone(t.KeyedEvent.Key)
			en.TS = t.KeyedEvent.Timestamp.AsTime()
		case *workerpb.Event_Watermark:
			ts := t.Watermark.Timestamp.AsTime()
			en.WM = &ts
		case *workerpb.Event_CheckpointBarrier:
			en.Barrier = t.CheckpointBarrier.CheckpointId
		case *workerpb.Event_SourceComplete:
			en.Done = true
		}
		if en.WM == nil {
			o.dep.w.progress.Add(1)
		}
		o.Log = append(o.Log, en)
	}
	return nil
}

// Snapshot copies the log.
func (o *Op) Snapshot() []Entry {
	o.mu.Lock()
	defer o.mu.Unlock()
	return slices.Clone(o.Log)
}

// Ack is one checkpoint report of the source runner.
type Ack struct {
	ID     uint64
	States map[int]int
	Read   int // records read when the job received the ack
	dep    *Deployment
}

type job struct {
	proto.NoopJob
	w *World
}

func (j job) OnSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	j.w.mu.Lock()
	defer j.w.mu.Unlock()
	a := &Ack{ID: req.CheckpointId, States: map[int]int{}, dep: j.w.cur}
	for _, d := range j.w.past {
		if _, ok := d.asked[a.ID]; ok { // a report that was late
			a.dep = d
		}
	}
	for _, s := range req.SplitStates {
		id, cur := ParseSplitState(s)
		if _, dup := a.States[id]; dup {
			j.w.report("dup-split", "checkpoint %d reports split %d twice", req.CheckpointId, id)
		}
		a.States[id] = cur
	}
	a.Read = a.dep.Reader.ReadCount()
	j.w.acks = append(j.w.acks, a)
	return nil
}

// Deployment is one HandleDeploy of the runner.
type Deployment struct {
	w        *World
	Ops      []*Op
	Reader   *Reader
	Groups   int
	Acks     []*Ack
	Start    map[int]int // cursors assigned
	asked    map[uint64]asked
	key      *Deployment
	assigned []int
}

// asked is the situation when a checkpoint was requested.
type asked struct {
	read   int   // records read by then
	splits []int // splits assigned by then
}

// World is one source runner under test.
type World struct {
	c        *vlib.Case
	r        *rand.Rand
	In       *Input
	SR       *sourcerunner.SourceRunner
	Handler  *Handler
	mu       sync.Mutex
	cur      *Deployment
	acks     []*Ack
	progress atomic.Int64
	cancel   context.CancelFunc
	done     chan error
	Batching batching.EventBatcherParams
	OpMax    time.Duration
	Knobs    ReadKnobs
	ops      map[string]*Op
	depN     int
	past     []*Deployment
	aspects  []string
}

// Knobs are the World's settings.
type Knobs struct {
	Batching batching.EventBatcherParams
	KeyMax   time.Duration // KeyEventBatch latency
	OpMax    time.Duration // HandleEventBatch latency
	Read     ReadKnobs
}

// RandomKnobs draws settings; bounded says whether every partial batch is flushed by a time-out.
func RandomKnobs(r *rand.Rand) (k Knobs, bounded bool) {
	k.Batching.MaxSize = []int{0, 1, 2, 3, 5, 8, 16, 50}[r.Intn(8)]
	switch r.Intn(8) {
	case 0:
	case 1:
		k.Batching.MaxDelay = time.Nanosecond
	default:
		k.Batching.MaxDelay = time.Duration(20+r.Intn(4000)) * time.Microsecond
	}
	if r.Intn(4) > 0 {
		k.KeyMax = time.Duration(1+r.Intn(4000)) * time.Microsecond
	}
	if r.Intn(4) > 0 {
		k.OpMax = time.Duration(1+r.Intn(2000)) * time.Microsecond
	}
	k.Read.MaxBatch = 1 + r.Intn(20)
	if r.Intn(3) > 0 {
		k.Read.Pause = time.Duration(1+r.Intn(1500)) * time.Microsecond
	}
	if r.Intn(10) == 0 {
		k.Read.ErrEvery = 30
	}
	k.Read.EOI = r.Intn(3) == 0
	return k, k.Batching.MaxDelay > 0 || k.Batching.MaxSize <= 1
}

// Aspects of the oracles.
var (
	Delivery   = []string{"lost", "duplicate", "order", "altered", "stale", "barriers", "overtook", "wm-overtook", "wm-differs", "concurrent", "after-failure", "stuck", "stopped"}
	Positions  = []string{"cut", "positions", "missing-split", "ack", "dup-split", "reader", "stale", "double-read"}
	Watermarks = []string{"wm-regress", "wm-reached", "wm-lags", "wm-differs"}
	Routes     = []string{"route"}
)

func (w *World) report(sig, format string, args ...any) {
	if slices.Contains(w.aspects, sig) {
		w.c.Report(sig, format, args...)
	}
}

// SetWatermarkInterval makes every later deployment use d (verif build tag).
func SetWatermarkInterval(d func() time.Duration) {
	vhook.SetTune(func(p string, v ...any) {
		if p == "sourcerunner.watermark_interval" {
			*v[0].(*time.Duration) = d()
		}
	})
}

// DelayFlush injects random delays between taking a batch and reserving its place (verif build
// tag); max 0 removes them.
func DelayFlush(seed int64, max time.Duration) {
	if max == 0 {
		vhook.Set(nil)
		return
	}
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	vhook.Set(func(p string) {
		if p != "batching.flush" {
			return
		}
		mu.Lock()
		d := time.Duration(r.Int63n(int64(max)))
		if r.Intn(2) == 0 {
			d = 0
		}
		mu.Unlock()
		time.Sleep(d)
	})
}

// WaitStopped waits for the runner to stop by itself.
func (w *World) WaitStopped(patience time.Duration) bool {
	select {
	case err := <-w.done:
		w.done <- err
		return err != nil
	case <-time.After(patience):
		return false
	}
}

// New starts a source runner.
func New(c *vlib.Case, in *Input, k Knobs, aspects ...[]string) *World {
	w := &World{c: c, r: c.R, In: in, Batching: k.Batching, OpMax: k.OpMax, Knobs: k.Read, ops: map[string]*Op{}, aspects: slices.Concat(aspects...), done: make(chan error, 1)}
	w.Handler = &Handler{in: in, r: rand.New(rand.NewSource(c.R.Int63())), Max: k.KeyMax}
	w.SR = sourcerunner.New(sourcerunner.NewParams{
		Host: "sr", UserHandler: w.Handler, Job: job{w: w}, Clock: clocks.NewFrozenClock(),
		OperatorFactory: func(_ string, node *jobpb.NodeIdentity) proto.Operator {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.ops[node.Id]
		},
		SourceReaderFactory: func(*jobconfigpb.Source) connectors.SourceReader {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.cur.Reader
		},
		EventBatching: k.Batching,
	})
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	go func() { w.done <- w.SR.Start(ctx) }()
	return w
}

// Close stops the runner.
func (w *World) Close() error {
	w.cancel()
	select {
	case err := <-w.done:
		return err
	case <-time.After(20 * time.Second):
		w.c.Fail("stop", "the source runner did not stop within 20s")
		return nil
	}
}

// Deploy deploys the runner to nOps fresh operators.
func (w *World) Deploy(nOps, groups int) *Deployment {
	d := &Deployment{w: w, Groups: groups, Start: map[int]int{}, asked: map[uint64]asked{}}
	d.Reader = &Reader{in: w.In, r: rand.New(rand.NewSource(w.r.Int63())), knobs: w.Knobs, cursors: map[int]int{},
		onRace: func(s string) { w.report("reader", "%s", s) }}
	req := &workerpb.DeploySourceRunnerRequest{KeyGroupCount: int32(groups), Sources: []*jobconfigpb.Source{{}}}
	w.mu.Lock()
	for i := 0; i < nOps; i++ {
		id := fmt.Sprintf("op-%d-%d", w.depN, i)
		op := &Op{id: id, r: rand.New(rand.NewSource(w.r.Int63())), max: w.OpMax, dep: d}
		d.Ops = append(d.Ops, op)
		w.ops[id] = op
		req.Operators = append(req.Operators, &jobpb.NodeIdentity{Id: id, Host: id})
	}
	w.depN++
	if w.cur != nil {
		w.past = append(w.past, w.cur)
	}
	w.cur = d
	w.mu.Unlock()
	if err := w.SR.HandleDeploy(context.Background(), req); err != nil {
		w.c.Fail("deploy", "HandleDeploy: %v", err)
	}
	return d
}

// Assign assigns splits at the given cursors.
func (w *World) Assign(d *Deployment, splits map[int]int) {
	var req []*workerpb.SourceSplit
	ids := make([]int, 0, len(splits))
	for s := range splits {
		ids = append(ids, s)
	}
	sort.Ints(ids)
	for _, s := range ids {
		sp := &workerpb.SourceSplit{SplitId: strconv.Itoa(s), SourceId: "src"}
		if splits[s] > 0 {
			sp.Cursor = SplitState(s, splits[s])
		}
		w.mu.Lock()
		d.Start[s] = splits[s]
		w.mu.Unlock()
		req = append(req, sp)
	}
	if err := w.SR.HandleAssignSplits(req); err != nil {
		w.c.Fail("assign", "HandleAssignSplits: %v", err)
	}
	w.mu.Lock()
	d.assigned = append(d.assigned, ids...)
	w.mu.Unlock()
}

// Checkpoint starts a checkpoint.
func (w *World) Checkpoint(id uint64) {
	w.mu.Lock()
	a := asked{read: w.cur.Reader.ReadCount()}
	a.splits = slices.Clone(w.cur.assigned)
	w.cur.asked[id] = a
	w.mu.Unlock()
	w.SR.HandleStartCheckpoint(context.Background(), id)
}

// Acked returns d's acks.
func (w *World) Acked(d *Deployment) []*Ack {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*Ack
	for _, a := range w.acks {
		if a.dep == d {
			out = append(out, a)
		}
	}
	return out
}

// Expected is the number of keyed events d must deliver in total.
func (w *World) Expected(d *Deployment) int {
	n := 0
	for s, cur := range d.Start {
		for _, rec := range w.In.Splits[s][cur:] {
			n += len(rec)
		}
	}
	return n
}

// Delivered counts keyed events and barriers received by d's operators.
func (d *Deployment) Delivered() (keyed, barriers int) {
	for _, o := range d.Ops {
		for _, e := range o.Snapshot() {
			if e.WM == nil && !e.Done {
				if e.Barrier > 0 {
					barriers++
				} else {
					keyed++
				}
			}
		}
	}
	return
}

// WaitDelivered waits until all keyed events and barriers of d arrived, or nothing moved for
// the patience.
func (w *World) WaitDelivered(d *Deployment, barriers int, patience time.Duration) bool {
	want := w.Expected(d)
	last, at := int64(-1), time.Now()
	lastRead := -1
	for {
		k, b := d.Delivered()
		if k >= want && b >= barriers*len(d.Ops) {
			return true
		}
		if p, q := w.progress.Load(), d.Reader.ReadCount(); p != last || q != lastRead {
			last, lastRead, at = p, q, time.Now()
		} else if time.Since(at) > patience {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// Check runs every oracle on what d's operators received. complete says that everything
// assigned must have arrived.
func (w *World) Check(d *Deployment, complete bool) {
	c := w.c
	logs := make([][]Entry, len(d.Ops))
	for i, o := range d.Ops {
		logs[i] = o.Snapshot()
		c.Count("batches", o.Batches)
	}
	d.Reader.mu.Lock()
	order := slices.Clone(d.Reader.Order)
	d.Reader.mu.Unlock()
	w.mu.Lock()
	d = &Deployment{w: w, Ops: d.Ops, Reader: d.Reader, Groups: d.Groups, Start: maps.Clone(d.Start), asked: maps.Clone(d.asked), key: d}
	w.mu.Unlock()
	pos := map[Rec]int{}
	for i, rec := range order {
		pos[rec] = i
	}
	ranges := partitioning.NewKeySpace(d.Groups, len(d.Ops)).KeyGroupRanges()
	acks := w.Acked(d.key)
	lenAt := map[uint64]*Ack{}
	for _, a := range acks {
		if lenAt[a.ID] != nil {
			w.report("ack", "checkpoint %d was reported twice by the source runner", a.ID)
		}
		lenAt[a.ID] = a
	}
	type where struct{ op, idx int }
	seen := map[uint32]where{}
	// marks of each operator stream: how many of each mark, with the set of records before it
	for i, log := range logs {
		lastSeq := map[string]int{}
		var lastID uint32
		var lastBarrier uint64
		for j, e := range log {
			switch {
			case e.WM != nil, e.Done:
			case e.Barrier > 0:
				if e.Barrier <= lastBarrier {
					w.report("barriers", "operator %d got barrier %d after %d", i, e.Barrier, lastBarrier)
				}
				lastBarrier = e.Barrier
				if lenAt[e.Barrier] == nil {
					w.report("barriers", "operator %d got barrier %d before its positions were reported", i, e.Barrier)
				}
			default:
				k := w.In.byID[e.ID]
				if k == nil || !bytes.Equal(k.Key, e.Key) || !k.TS.Equal(e.TS) {
					w.report("altered", "operator %d got event #%d key %x ts %v, produced %+v", i, e.ID, e.Key, e.TS, k)
					continue
				}
				if _, read := pos[Rec{k.Split, k.Seq}]; !read {
					w.report("stale", "operator %d got event #%d of split %d seq %d which this deployment never read", i, e.ID, k.Split, k.Seq)
				}
				if at, dup := seen[e.ID]; dup {
					w.report("duplicate", "event #%d was delivered twice: operator %d position %d and operator %d position %d", e.ID, at.op, at.idx, i, j)
				}
				seen[e.ID] = where{i, j}
				g := ref.Group(k.Key, d.Groups)
				if !ranges[i].IncludesKeyGroup(partitioning.KeyGroup(g)) {
					w.report("route", "event with key %x (group %d of %d) was delivered to operator %d of %d which owns [%d,%d)", k.Key, g, d.Groups, i, len(d.Ops), ranges[i].Start, ranges[i].End)
				}
				sk := fmt.Sprintf("%d|%s", k.Split, k.Key)
				if p, ok := lastSeq[sk]; ok && (k.Seq < p || k.Seq == p && e.ID < lastID) {
					w.report("order", "operator %d: record %d of split %d (key %x) arrived after record %d", i, k.Seq, k.Split, k.Key, p)
				}
				lastSeq[sk] = k.Seq
				lastID = e.ID
			}
		}
	}
	c.Count("keyed_events", len(seen))
	if complete {
		for s, cur := range d.Start {
			for q := cur; q < len(w.In.Splits[s]); q++ {
				for _, k := range w.In.Splits[s][q] {
					if _, ok := seen[k.ID]; !ok {
						w.report("lost", "event #%d (split %d seq %d) was never delivered", k.ID, s, q)
					}
				}
			}
		}
	}
	for id, a := range d.asked {
		for i, log := range logs {
			b := slices.IndexFunc(log, func(e Entry) bool { return e.Barrier == id })
			if b < 0 {
				continue
			}
			for _, rec := range order[:a.read] {
				for _, k := range w.In.Splits[rec.Split][rec.Seq] {
					if at, ok := seen[k.ID]; ok && at.op == i && at.idx > b {
						w.report("overtook", "barrier %d overtook event #%d (split %d seq %d), read before the barrier was requested", id, k.ID, k.Split, k.Seq)
					}
				}
			}
		}
		if ack := lenAt[id]; ack != nil {
			for _, s := range a.splits {
				if _, ok := ack.States[s]; !ok {
					w.report("missing-split", "checkpoint %d reports no position for split %d, assigned before it was requested", id, s)
				}
			}
		}
	}
	// Cuts: everything before barrier N is exactly what the reported positions cover.
	for id, a := range lenAt {
		for i, log := range logs {
			b := slices.IndexFunc(log, func(e Entry) bool { return e.Barrier == id })
			if b < 0 {
				if complete {
					w.report("barriers", "operator %d never got barrier %d", i, id)
				}
				continue
			}
			c.Count("cuts", 1)
			before := map[uint32]bool{}
			for j, e := range log {
				if e.ID == 0 {
					continue
				}
				k := w.In.byID[e.ID]
				covered := k.Seq < a.States[k.Split]
				if j < b && !covered {
					w.report("cut", "event #%d (split %d seq %d) precedes barrier %d whose reported position of the split is %d", e.ID, k.Split, k.Seq, id, a.States[k.Split])
				}
				if j > b && covered {
					w.report("cut", "event #%d (split %d seq %d) follows barrier %d whose reported position of the split is %d", e.ID, k.Split, k.Seq, id, a.States[k.Split])
				}
				before[e.ID] = j < b
			}
			// covered records this operator owns but didn't get yet before the barrier
			for s, cur := range a.States {
				from, ok := d.Start[s]
				if !ok {
					w.report("positions", "checkpoint %d reports split %d which was not assigned", id, s)
					continue
				}
				for q := from; q < cur; q++ {
					for _, k := range w.In.Splits[s][q] {
						if ranges[i].IncludesKeyGroup(partitioning.KeyGroup(ref.Group(k.Key, d.Groups))) && !before[k.ID] {
							w.report("cut", "event #%d (split %d seq %d) is covered by checkpoint %d but didn't precede its barrier at operator %d", k.ID, s, q, id, i)
						}
					}
				}
			}
		}
	}
	w.checkWatermarks(d, logs, order, pos)
}

// checkWatermarks: the k-th watermark is one point of the runner's stream: same value for all
// operators, a prefix of the records before it, below but close to the largest timestamp.
func (w *World) checkWatermarks(d *Deployment, logs [][]Entry, order []Rec, pos map[Rec]int) {
	c := w.c
	type mark struct {
		val   time.Time
		have  map[uint32]bool
		count int
	}
	var marks []*mark
	for i, log := range logs {
		n := 0
		for j, e := range log {
			if e.WM == nil {
				continue
			}
			if n == len(marks) {
				marks = append(marks, &mark{val: *e.WM, have: map[uint32]bool{}})
			}
			m := marks[n]
			if !m.val.Equal(*e.WM) {
				w.report("wm-differs", "watermark %d is %v for operator 0 but %v for operator %d", n, m.val, *e.WM, i)
			}
			for _, p := range log[:j] {
				if p.ID != 0 {
					m.have[p.ID] = true
				}
			}
			m.count++
			n++
		}
	}
	var prev time.Time
	for n, m := range marks {
		c.Count("watermarks", 1)
		if n > 0 && m.val.Before(prev) {
			w.report("wm-regress", "watermark %d (%v) is before its predecessor %v", n, m.val, prev)
		}
		prev = m.val
		if m.count < len(logs) {
			continue // not yet received by every operator: the set before it isn't known
		}
		// The records before the mark
		last, first := -1, len(order)
		var maxTS time.Time
		any := false
		for id := range m.have {
			k := w.In.byID[id]
			last = max(last, pos[Rec{k.Split, k.Seq}])
			if !any || k.TS.After(maxTS) {
				maxTS = k.TS
			}
			any = true
		}
		for p, rec := range order[:last+1] {
			for _, k := range w.In.Splits[rec.Split][rec.Seq] {
				if !m.have[k.ID] {
					first = min(first, p)
					w.report("wm-overtook", "watermark %d precedes event #%d (read as record %d) at its operator although record %d precedes the watermark", n, k.ID, p, last)
				}
			}
		}
		if any {
			c.Count("wm_with_events", 1)
			if !m.val.Before(maxTS) {
				w.report("wm-reached", "watermark %d is %v, events up to %v were forwarded before it", n, m.val, maxTS)
			}
			if m.val.Before(maxTS.Add(-time.Second)) {
				w.report("wm-lags", "watermark %d is %v although events up to %v were forwarded before it", n, m.val, maxTS)
			}
		}
	}
}
