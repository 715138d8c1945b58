package snapx

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"path"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/snapshots"
	"verif/harness/dkvx"
	"verif/harness/vlib"
)

// Signatures by property.
var (
	Atomic  = []string{"incomplete", "content", "two-pending", "id", "rejected", "accepted", "unpublished-current", "unpublished-announced", "never-published", "splitter"}
	Newest  = []string{"not-newest", "newest-removed", "older-announced", "stale-current", "load", "unpublished-announced", "not-restorable"}
	Savings = []string{"fold", "second", "no-savepoint", "savepoint-content", "load", "not-restorable"}
)

// Pend is the reference of one started checkpoint.
type Pend struct {
	ID       uint64
	Inc      int
	Ops, SRs []string
	opAcks   map[string][]*snapshotpb.OperatorCheckpoint
	srAcks   map[string][]*jobpb.SourceRunnerCheckpointCompleteRequest
	Save     bool
	Complete bool
	failed   bool // publication got a fault
	splitter string
}

func (p *Pend) done() bool {
	for _, o := range p.Ops {
		if len(p.opAcks[o]) == 0 {
			return false
		}
	}
	for _, s := range p.SRs {
		if len(p.srAcks[s]) == 0 {
			return false
		}
	}
	return true
}

// World is one job's storage with the store of the running process.
type World struct {
	C       *vlib.Case
	R       *rand.Rand
	Disk    *Disk
	Loc     *Loc
	Store   *snapshots.Store
	aspects []string

	mu        sync.Mutex
	inc       int // incarnation
	all       map[uint64]*Pend
	Pending   *Pend
	Last      *Pend  // completed last
	Racing    bool   // acknowledgements are sent concurrently
	Retain    bool   // operators apply the announcements, their checkpoints must be restorable
	base      uint64 // the checkpoint the process started from
	published map[uint64][]byte
	order     map[uint64]int // publication order
	floor     uint64         // ids issued so far, all incarnations
	floorInc  int
	announced uint64
	heardNew  int                       // announcements since the last publication
	pubs      int                       // checkpoints the process knows: loaded and published
	loaded    *snapshotpb.JobCheckpoint // what the process started from
	current   uint64
	removed   map[uint64]bool
	savepoint map[uint64]string // complete savepoints

	retained chan []uint64
	dbs      map[string]*dkv.DB
	dbSeq    int
	sp       *splitter
	spN      int
	dup      int
	old      []*dkv.DB
	refs     map[string]dkvx.Ref // by operator
	contents map[string]dkvx.Ref // by checkpoint id and URI
}

type splitter struct {
	connectors.UnimplementedSourceSplitter
	mu   sync.Mutex
	name string
	n    int
}

func (s *splitter) Checkpoint() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return []byte(fmt.Sprint(s.name, "/", s.n))
}

// New makes an empty storage.
func New(c *vlib.Case, aspects ...[]string) *World {
	w := &World{C: c, R: c.R, Disk: NewDisk(dkvx.NewFS()), all: map[uint64]*Pend{}, published: map[uint64][]byte{}, order: map[uint64]int{}, removed: map[uint64]bool{}, savepoint: map[uint64]string{}, contents: map[string]dkvx.Ref{}}
	for _, a := range aspects {
		w.aspects = append(w.aspects, a...)
	}
	w.Disk.Writing = w.writing
	w.Disk.Wrote = w.wrote
	w.Disk.Removing = w.removing
	return w
}

var keys = func() (l [][]byte) {
	for i := byte(0); i < 8; i++ {
		l = append(l, []byte{0, i})
	}
	return
}()

func (w *World) report(sig, format string, args ...any) {
	if slices.Contains(w.aspects, sig) {
		w.C.Report(sig, format, args...)
	}
}

func snapshotFile(p string) bool { return path.Ext(p) == ".snapshot" }

func decode(b []byte) (*snapshotpb.JobCheckpoint, error) {
	var k snapshotpb.JobCheckpoint
	err := proto.Unmarshal(b, &k)
	return &k, err
}

// writing looks at a file that is about to appear.
func (w *World) writing(p string, b []byte) {
	if !snapshotFile(p) {
		return
	}
	k, err := decode(b)
	if err != nil {
		w.report("content", "%s can't be decoded: %v", p, err)
		return
	}
	w.C.Count("publications", 1)
	w.mu.Lock()
	defer w.mu.Unlock()
	m := w.all[k.Id]
	if m == nil || !m.Complete {
		w.report("incomplete", "checkpoint %d is published but its acknowledgements aren't complete: %s", k.Id, w.missing(m))
		return
	}
	w.content(m, k, "published", "content")
}

func (w *World) missing(m *Pend) string {
	if m == nil {
		return "it was never started"
	}
	var l []string
	for _, o := range m.Ops {
		if len(m.opAcks[o]) == 0 {
			l = append(l, o)
		}
	}
	for _, o := range m.SRs {
		if len(m.srAcks[o]) == 0 {
			l = append(l, o)
		}
	}
	return "missing " + strings.Join(l, " ")
}

// content compares a checkpoint with the acknowledgements of the reference.
func (w *World) content(m *Pend, k *snapshotpb.JobCheckpoint, where, sig string) {
	seen := map[string]bool{}
	for _, o := range k.OperatorCheckpoints {
		if seen[o.OperatorId] {
			w.report(sig, "%s checkpoint %d has several entries of operator %s", where, k.Id, o.OperatorId)
		}
		seen[o.OperatorId] = true
		ok := false
		for _, a := range m.opAcks[o.OperatorId] {
			ok = ok || proto.Equal(a, o)
		}
		if !ok {
			w.report(sig, "%s checkpoint %d has the entry %v which isn't what operator %s acknowledged: %v", where, k.Id, o, o.OperatorId, m.opAcks[o.OperatorId])
		}
	}
	for _, o := range m.Ops {
		if !seen[o] {
			w.report(sig, "%s checkpoint %d has no entry of operator %s", where, k.Id, o)
		}
	}
	if len(k.SourceCheckpoints) != 1 {
		w.report(sig, "%s checkpoint %d has %d sources", where, k.Id, len(k.SourceCheckpoints))
		return
	}
	left := map[string]int{}
	for _, s := range k.SourceCheckpoints[0].SplitStates {
		left[string(s)]++
	}
	for _, sr := range m.SRs {
		mine := map[string]int{} // split positions name their source runner
		for s, n := range left {
			if strings.HasPrefix(s, sr+":") {
				mine[s] = n
				delete(left, s)
			}
		}
		found := false
		for _, a := range m.srAcks[sr] {
			all := len(a.SplitStates) == len(mine)
			for _, s := range a.SplitStates {
				all = all && mine[string(s)] == 1
			}
			found = found || all
		}
		if !found {
			w.report(sig, "%s checkpoint %d has the split positions %q, not once each of those of %s", where, k.Id, k.SourceCheckpoints[0].SplitStates, sr)
		}
	}
	for s := range left {
		w.report(sig, "%s checkpoint %d has the split position %q that nobody reported or that is repeated", where, k.Id, s)
	}
	if st := string(k.SourceCheckpoints[0].SplitterState); !strings.HasPrefix(st, m.splitter+"/") {
		w.report("splitter", "%s checkpoint %d has the splitter state %q, not one of splitter %s", where, k.Id, st, m.splitter)
	}
	w.C.Count("contents_compared", 1)
}

func (w *World) wrote(p string, b []byte) {
	if path.Ext(p) == ".savepoint" {
		k, err := decode(b)
		if err != nil {
			w.report("savepoint-content", "%s can't be decoded: %v", p, err)
		} else {
			w.mu.Lock()
			if m := w.all[k.Id]; m == nil || !m.Complete || !m.Save {
				w.report("savepoint-content", "%s is written although no savepoint %d is complete", p, k.Id)
			} else {
				w.content(m, k, "savepoint", "savepoint-content")
			}
			w.savepoint[k.Id] = p
			w.mu.Unlock()
			w.C.Count("savepoints", 1)
		}
		return
	}
	if !snapshotFile(p) {
		return
	}
	k, err := decode(b)
	if err != nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if _, ok := w.published[k.Id]; !ok {
		w.order[k.Id] = len(w.order)
	}
	w.published[k.Id] = b
	w.heardNew = 0
	w.pubs++
	delete(w.removed, k.Id)
}

func (w *World) removing(p string, b []byte) {
	if !snapshotFile(p) {
		return
	}
	k, err := decode(b)
	if err != nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.C.Count("removals", 1)
	w.removed[k.Id] = true
	if n, ok := w.newest(); !ok || n < k.Id {
		w.report("newest-removed", "%s, the newest completed checkpoint %d, is removed; left: %d", p, k.Id, n)
	}
}

// newest is the highest published id that is present; w.mu is held.
func (w *World) newest() (uint64, bool) {
	var n uint64
	ok := false
	for id := range w.published {
		if !w.removed[id] && (!ok || id > n) {
			n, ok = id, true
		}
	}
	return n, ok
}

func (w *World) maxPublished() uint64 {
	n := w.base
	for id := range w.order {
		n = max(n, id)
	}
	return n
}

// Open starts a process: a new store which loads its checkpoint.
func (w *World) Open(savepoint string) {
	w.inc++
	w.Loc = w.Disk.Mount()
	w.retained = make(chan []uint64)
	w.Store = snapshots.NewStore(&snapshots.NewStoreParams{SavepointURI: savepoint, FileStore: w.Loc, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints", ErrChan: make(chan error, 1000), RetainedCheckpointsUpdated: w.retained})
	w.mu.Lock()
	want, any := w.newest()
	w.Pending, w.Last = nil, nil
	w.announced, w.current, w.heardNew, w.pubs = 0, 0, 0, 0
	w.loaded = nil
	w.mu.Unlock()
	if err := w.load(); err != nil {
		w.C.Fail("load", "loading the checkpoint of process %d (newest completed: %d): %v", w.inc, want, err)
	}
	w.C.Count("starts", 1)
	if savepoint != "" {
		b, ok := w.Disk.read(savepoint)
		k, err := decode(b)
		if !ok || err != nil {
			w.C.Fail("setup", "savepoint %s: %v", savepoint, err)
		}
		want, any = k.Id, true
		w.mu.Lock()
		w.published[want], w.removed[want] = b, !w.present(want)
		w.mu.Unlock()
		w.C.Count("starts_from_savepoint", 1)
	}
	w.base = want
	k := w.Store.CurrentCheckpoint()
	if (k != nil) != any || k.GetId() != want {
		w.report("not-newest", "process %d starts from checkpoint %v, the newest completed one is %d (%v)", w.inc, idOf(k), want, any)
	}
	if k != nil && k.Id == want {
		w.mu.Lock()
		var m snapshotpb.JobCheckpoint
		proto.Unmarshal(w.published[k.Id], &m)
		if savepoint != "" { // the operators' files may be anywhere
			for i, o := range m.OperatorCheckpoints {
				if i < len(k.OperatorCheckpoints) {
					w.contents[fmt.Sprint(o.CheckpointId, k.OperatorCheckpoints[i].DkvFileUri)] = w.contents[fmt.Sprint(o.CheckpointId, o.DkvFileUri)]
					o.DkvFileUri = k.OperatorCheckpoints[i].DkvFileUri
				}
			}
		}
		w.current = k.Id
		w.pubs++
		w.loaded = &m
		w.mu.Unlock()
		if !same(k, &m) {
			w.report("load", "process %d starts from checkpoint %d as %v, published was %v", w.inc, k.Id, k, &m)
		}
	}
	w.C.Trace("process %d starts from %v", w.inc, idOf(k))
	if w.Retain && k != nil {
		w.restorable(k)
	}
	for _, db := range w.dbs {
		w.old = append(w.old, db)
	}
	w.dbs, w.refs = map[string]*dkv.DB{}, map[string]dkvx.Ref{}
	w.Splitter()
}

func (w *World) present(id uint64) bool {
	for _, b := range w.Disk.Files(snapshotFile) {
		if k, err := decode(b); err == nil && k.Id == id {
			return true
		}
	}
	return false
}

func (w *World) load() (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return w.Store.LoadCheckpoint()
}

func idOf(k *snapshotpb.JobCheckpoint) string {
	if k == nil {
		return "none"
	}
	return fmt.Sprint(k.Id)
}

// same compares checkpoints apart from the order of entries and unset fields.
func same(a, b *snapshotpb.JobCheckpoint) bool {
	if a.Id != b.Id || len(a.OperatorCheckpoints) != len(b.OperatorCheckpoints) || len(a.SourceCheckpoints) != len(b.SourceCheckpoints) {
		return false
	}
	for _, x := range a.OperatorCheckpoints {
		if !slices.ContainsFunc(b.OperatorCheckpoints, func(y *snapshotpb.OperatorCheckpoint) bool { return proto.Equal(x, y) }) {
			return false
		}
	}
	for i, x := range a.SourceCheckpoints {
		y := b.SourceCheckpoints[i]
		if !bytes.Equal(x.SplitterState, y.SplitterState) || len(x.SplitStates) != len(y.SplitStates) {
			return false
		}
		for _, s := range x.SplitStates {
			if !slices.ContainsFunc(y.SplitStates, func(t []byte) bool { return bytes.Equal(s, t) }) {
				return false
			}
		}
	}
	return true
}

// restorable opens what the operators acknowledged for a checkpoint.
func (w *World) restorable(k *snapshotpb.JobCheckpoint) {
	for _, o := range k.OperatorCheckpoints {
		want, ok := w.contents[fmt.Sprint(o.CheckpointId, o.DkvFileUri)]
		if !ok {
			continue // restored from a savepoint by hand
		}
		db, err := dkvx.OpenSafe(dkv.DBOptions{FileSystem: w.Disk.DKV.Clone().At("/probe"), Logger: dkvx.Quiet}, []recovery.CheckpointHandle{{CheckpointID: o.CheckpointId, URI: o.DkvFileUri}})
		if err == nil {
			err = dkvx.CheckAll(db, want, keys)
			w.old = append(w.old, db)
		}
		if err != nil {
			w.report("not-restorable", "process %d starts from checkpoint %d, operator %s's part of it (%s) can't be restored: %v", w.inc, k.Id, o.OperatorId, o.DkvFileUri, err)
		}
		w.C.Count("parts_restored", 1)
	}
}

// Close ends the world.
func (w *World) Close() {
	runtime.KeepAlive(w.old)
	runtime.KeepAlive(w.dbs)
}

// Splitter registers a new source splitter, as the job does for each deployment.
func (w *World) Splitter() {
	w.spN++
	w.sp = &splitter{name: fmt.Sprint("splitter-", w.spN)}
	w.Store.RegisterSourceSplitter(w.sp)
	if w.Pending != nil {
		w.Pending.splitter = w.sp.name
	}
}

// Crash kills the process, and the operators.
func (w *World) Crash() {
	w.Loc.Crash()
	w.Drain(nil)
	for _, db := range w.dbs {
		dkvx.Wait(db)
	}
	for _, db := range w.dbs {
		db.Close()
	}
	w.C.Count("crashes", 1)
	w.C.Trace("crash")
}

// Create starts a checkpoint or savepoint.
func (w *World) Create(ops, srs []string, save bool) {
	w.mu.Lock()
	floor, pub, pend := w.floor, w.maxPublished(), w.Pending
	w.mu.Unlock()
	var id uint64
	var err error
	created := true
	if save {
		id, created, err = w.Store.CreateSavepoint(ops, srs)
	} else {
		id, err = w.Store.CreateCheckpoint(ops, srs)
	}
	w.C.Trace("create save=%v -> %d %v %v", save, id, created, err)
	if pend != nil {
		switch {
		case !save:
			if err == nil {
				w.report("two-pending", "checkpoint %d is started while %d is in progress", id, pend.ID)
			} else if !errors.Is(err, snapshots.ErrCheckpointInProgress) {
				w.report("two-pending", "starting a checkpoint while %d is in progress: %v", pend.ID, err)
			}
		case pend.Save:
			if err == nil && (created || id != pend.ID) {
				w.report("second", "savepoint %d is started while savepoint %d is in progress", id, pend.ID)
			}
		default:
			if err != nil || created || id != pend.ID {
				w.report("fold", "a savepoint requested while checkpoint %d is in progress: id %d, started %v, %v", pend.ID, id, created, err)
			} else {
				pend.Save = true
				w.C.Count("savepoints_folded", 1)
			}
		}
		w.C.Count("creates_while_pending", 1)
		return
	}
	if err != nil {
		w.report("rejected", "starting a checkpoint with none in progress: %v", err)
		return
	}
	if !created {
		w.report("fold", "savepoint %d is said to be in progress but nothing is", id)
	}
	if id <= pub {
		w.report("id", "checkpoint id %d is handed out although %d was completed before", id, pub)
	} else if id <= floor {
		if w.floorInc != w.inc {
			w.report("reissued", "checkpoint id %d is handed out, the job handed out %d before it restarted", id, floor)
		} else {
			w.report("id", "checkpoint id %d is handed out although %d was handed out before", id, floor)
		}
	}
	m := &Pend{ID: id, Inc: w.inc, Ops: ops, SRs: srs, Save: save, opAcks: map[string][]*snapshotpb.OperatorCheckpoint{}, srAcks: map[string][]*jobpb.SourceRunnerCheckpointCompleteRequest{}, splitter: w.sp.name}
	w.mu.Lock()
	if w.floorInc != w.inc || id > w.floor {
		w.floor, w.floorInc = id, w.inc
	}
	w.all[id] = m
	w.Pending = m
	w.mu.Unlock()
	w.C.Count("checkpoints_started", 1)
}

// OpAck makes a genuine acknowledgement of an operator, with a database behind it.
func (w *World) OpAck(id uint64, op string) *snapshotpb.OperatorCheckpoint {
	db := w.dbs[op]
	if db == nil {
		w.dbSeq++
		db = dkv.Open(dkv.DBOptions{FileSystem: w.Disk.DKV.At(fmt.Sprintf("/work/%d-%s", w.dbSeq, op)), Logger: dkvx.Quiet, MemTableSize: 64}, nil)
		w.dbs[op] = db
		w.refs[op] = dkvx.Ref{}
	}
	for i := w.R.Intn(4); i > 0; i-- {
		k, v := keys[w.R.Intn(len(keys))], fmt.Sprint(id, "/", w.dbSeq)
		db.Put(bytes.Clone(k), []byte(v))
		w.refs[op][string(k)] = v
	}
	h, err := db.Checkpoint(id)()
	if err != nil {
		w.C.Fail("setup", "%v", err)
	}
	w.contents[fmt.Sprint(id, h.URI)] = w.refs[op].Clone()
	return &snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: op, DkvFileUri: h.URI, KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(w.R.Intn(5)), End: int32(5 + w.R.Intn(9))}}
}

// SrAck makes a genuine acknowledgement of a source runner.
func (w *World) SrAck(id uint64, sr string) *jobpb.SourceRunnerCheckpointCompleteRequest {
	a := &jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: sr}
	for i := w.R.Intn(4); i > 0; i-- {
		w.dup++
		a.SplitStates = append(a.SplitStates, []byte(fmt.Sprint(sr, ":", id, ":", w.dup)))
	}
	return a
}

// begin tells the reference of an acknowledgement ahead of the call, and whether it's valid.
func (w *World) begin(id uint64, op *snapshotpb.OperatorCheckpoint, sr *jobpb.SourceRunnerCheckpointCompleteRequest) (ok, dup bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := w.Pending
	if w.Racing && m == nil && w.all[id] != nil && w.all[id].Inc == w.inc {
		m = w.all[id] // the calls' order isn't known
	}
	if m == nil || m.ID != id {
		return false, false
	}
	if op != nil {
		if !slices.Contains(m.Ops, op.OperatorId) {
			return false, false
		}
		dup = len(m.opAcks[op.OperatorId]) > 0
		m.opAcks[op.OperatorId] = append(m.opAcks[op.OperatorId], proto.Clone(op).(*snapshotpb.OperatorCheckpoint))
	} else {
		if !slices.Contains(m.SRs, sr.SourceRunnerId) {
			return false, false
		}
		dup = len(m.srAcks[sr.SourceRunnerId]) > 0
		m.srAcks[sr.SourceRunnerId] = append(m.srAcks[sr.SourceRunnerId], proto.Clone(sr).(*jobpb.SourceRunnerCheckpointCompleteRequest))
	}
	if m.done() && !m.Complete {
		m.Complete = true
		w.Pending = nil
		w.Last = m
		w.C.Count("checkpoints_completed", 1)
	}
	return true, dup
}

// SendOp delivers an acknowledgement.
func (w *World) SendOp(a *snapshotpb.OperatorCheckpoint) {
	ok, dup := w.begin(a.CheckpointId, a, nil)
	err := w.Store.AddOperatorSnapshot(a)
	w.C.Trace("ack of %s for %d (valid %v, again %v) -> %v", a.OperatorId, a.CheckpointId, ok, dup, err)
	w.result(ok, dup, err, fmt.Sprintf("acknowledgement of operator %s for %d", a.OperatorId, a.CheckpointId))
}

// SendSR delivers an acknowledgement.
func (w *World) SendSR(a *jobpb.SourceRunnerCheckpointCompleteRequest) {
	ok, dup := w.begin(a.CheckpointId, nil, a)
	err := w.Store.AddSourceSnapshot(a)
	w.C.Trace("ack of %s for %d (valid %v, again %v) -> %v", a.SourceRunnerId, a.CheckpointId, ok, dup, err)
	w.result(ok, dup, err, fmt.Sprintf("acknowledgement of source runner %s for %d", a.SourceRunnerId, a.CheckpointId))
}

func (w *World) result(ok, dup bool, err error, what string) {
	switch {
	case ok && !dup:
		w.C.Count("acks", 1)
		if err != nil && !w.Racing {
			w.report("rejected", "the first %s is rejected: %v", what, err)
		}
	case ok:
		w.C.Count("duplicate_acks", 1)
	default:
		w.C.Count("foreign_acks", 1)
	}
}

// Look checks what the store says about itself.
func (w *World) Look() {
	w.mu.Lock()
	before := w.current
	w.mu.Unlock()
	k := w.Store.CurrentCheckpoint()
	w.mu.Lock()
	defer w.mu.Unlock()
	if k == nil {
		return
	}
	w.C.Count("looks", 1)
	b, ok := w.published[k.Id]
	if !ok {
		w.report("unpublished-current", "the store's current checkpoint %d was never published", k.Id)
		return
	}
	m, _ := decode(b)
	if w.loaded != nil && w.loaded.Id == k.Id {
		m = w.loaded
	}
	if !same(k, m) {
		w.report("content", "the store's current checkpoint %v differs from what was published: %v", k, m)
	}
	if k.Id < before {
		w.report("stale-current", "the store's current checkpoint is %d after it was %d", k.Id, before)
	}
	w.current = k.Id
}

// Drain takes up to n announcements (nil: whatever is ready).
func (w *World) Drain(n *int) {
	for n == nil || *n > 0 {
		select {
		case ids := <-w.retained:
			w.heard(ids)
			if n != nil {
				*n--
			}
		default:
			return
		}
	}
}

func (w *World) heard(ids []uint64) {
	if w.Retain {
		for op, db := range w.dbs {
			if err := db.UpdateRetainedCheckpoints(ids); err != nil {
				w.report("not-restorable", "operator %s can't retain only %v: %v", op, ids, err)
			}
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.C.Count("announcements", 1)
	w.C.Trace("announced %v", ids)
	if len(ids) == 0 {
		w.report("older-announced", "nothing is announced as retained")
		return
	}
	w.heardNew++
	top := slices.Max(ids)
	for _, id := range ids {
		if _, ok := w.published[id]; !ok {
			w.report("unpublished-announced", "%d is announced as retained but was never published", id)
		}
	}
	for id, at := range w.order {
		if id > top && at < w.order[top] {
			w.report("older-announced", "%v is announced as retained although the newer checkpoint %d was already completed when %d was", ids, id, top)
		}
	}
	if top < w.announced {
		w.report("older-announced", "%v is announced as retained after %d was", ids, w.announced)
	}
	w.announced = top
}

// Settle waits until nothing moves: every completed checkpoint is published, or its
// publication waits at the gate. It returns whether that's the case.
func (w *World) Settle(d time.Duration, cond func() bool) bool {
	return dkvx.Settle(d, func() bool {
		w.Drain(nil)
		return cond()
	})
}

// Quiet opens the gate and checks the outcome when all is done.
func (w *World) Quiet() {
	w.Loc.Gate(false)
	w.mu.Lock()
	last := w.Last
	w.mu.Unlock()
	if last != nil && !last.failed {
		ok := w.Settle(20*time.Second, func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			_, ok := w.published[last.ID]
			return ok
		})
		if !ok {
			w.C.Fail("never-published", "checkpoint %d was acknowledged by all but isn't published", last.ID)
		}
		if slices.Contains(w.aspects, "stale-current") && !w.Settle(20*time.Second, func() bool { return w.Store.CurrentCheckpoint().GetId() == last.ID }) {
			w.report("stale-current", "the store's current checkpoint is %d, the newest completed one %d", w.Store.CurrentCheckpoint().GetId(), last.ID)
		}
		if slices.Contains(w.aspects, "older-announced") {
			ok := w.Settle(20*time.Second, func() bool {
				w.mu.Lock()
				defer w.mu.Unlock()
				return w.pubs < 2 || w.announced == last.ID
			})
			w.mu.Lock()
			if !ok && w.heardNew > 0 {
				w.report("older-announced", "all is done, %d is completed, and the last announcement says that %d is to be retained", last.ID, w.announced)
			}
			w.mu.Unlock()
		}
		if last.Save && slices.Contains(w.aspects, "no-savepoint") {
			ok := w.Settle(20*time.Second, func() bool {
				w.mu.Lock()
				defer w.mu.Unlock()
				return w.savepoint[last.ID] != ""
			})
			if !ok {
				w.report("no-savepoint", "savepoint %d was completed but isn't there", last.ID)
			}
		}
	}
	w.Look()
	w.C.StopIfFailed()
}

// Savepoint names a random complete savepoint.
func (w *World) Savepoint() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var l []uint64
	for id := range w.savepoint {
		l = append(l, id)
	}
	if len(l) == 0 {
		return ""
	}
	slices.Sort(l)
	return w.savepoint[l[w.R.Intn(len(l))]]
}

// Fault marks the publications in progress as failed.
func (w *World) Fault() {
	w.mu.Lock()
	for _, m := range w.all {
		if _, ok := w.published[m.ID]; m.Complete && !ok {
			m.failed = true
		}
	}
	w.mu.Unlock()
}

// Max is the highest id handed out.
func (w *World) Max() uint64 { w.mu.Lock(); defer w.mu.Unlock(); return w.floor }

// Seed writes a savepoint file with an arbitrary id, from which a store can start counting.
func (w *World) Seed(id uint64) string {
	k := &snapshotpb.JobCheckpoint{Id: id, SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{CheckpointId: id, SourceId: "tbd"}}}
	b, _ := proto.Marshal(k)
	p := fmt.Sprintf("/job/savepoints/seed-%d/job.savepoint", id)
	w.Disk.files[p] = b
	return p
}

// Snapshots is the number of published snapshot files.
func (w *World) Snapshots() int { return len(w.Disk.Files(snapshotFile)) }

// Wipe deletes the working storage, all but the savepoints.
func (w *World) Wipe() {
	w.Disk.mu.Lock()
	for p := range w.Disk.files {
		if !strings.HasPrefix(p, "/job/savepoints/") {
			delete(w.Disk.files, p)
		}
	}
	w.Disk.mu.Unlock()
	w.Disk.DKV.Wipe()
	w.mu.Lock()
	for id := range w.published {
		w.removed[id] = true
	}
	w.mu.Unlock()
	w.C.Count("wipes", 1)
}

// Acked tells whether an operator acknowledged a checkpoint.
func (w *World) Acked(m *Pend, op string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(m.opAcks[op]) > 0
}

// Savepoints lists the complete savepoints.
func (w *World) Savepoints() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return slices.Sorted(maps.Values(w.savepoint))
}
