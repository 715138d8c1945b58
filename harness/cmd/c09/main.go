// C09: files needed by retained checkpoints or live tables are never deleted.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/proto/workerpb"
	"verif/harness/dkvx"
	"verif/harness/opx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C09", Level: "exploration", Recycle: 8,
		Rule: "The files that every retained checkpoint references are read from its list when it completes and watched from then on: a delete of one of them is reported when it is attempted, and after every step - garbage collections included - each must exist, be what the list still says, and be readable. db/local: histories of writes, checkpoints (with others in flight), retention updates, reopenings and injected save and delete faults on one database, on the instrumented file system and on a local directory; after a successful retention update the write-ahead logs that only dropped checkpoints referenced are gone. share: chains of deployments of real operators rescaled from a common checkpoint, redeployed in the same process or not, left-over processes alive, the neighbours' NeedsTable answers delayed, failing or unreachable, retention updates sent late or not at all; reads of a removed file fail as they would on remote storage and all state is compared. handover/leftover: an operator stops using tables that it shares with a neighbour, whose key groups another operator takes over; the garbage collector, held off until then, finds the tables while the neighbour is deployed anew and the operator itself not yet, or after the first checkpoint of a deployment which the operator is no part of. Non-trivial: files were deleted and a checkpoint that shares a table with a dropped one stayed.",
		Suites: []vlib.Suite{
			{Name: "db", Quick: 450, Thorough: 40000, Run: func(c *vlib.Case) { database(c, false) }},
			{Name: "faults", Quick: 300, Thorough: 20000, Run: func(c *vlib.Case) { database(c, true) }},
			{Name: "local", Quick: 24, Thorough: 600, Run: local},
			{Name: "handover", Quick: 80, Thorough: 8000, Run: func(c *vlib.Case) { handover(c, false) }},
			{Name: "leftover", Quick: 60, Thorough: 4000, Run: func(c *vlib.Case) { handover(c, true) }},
			{Name: "share", Quick: 260, Thorough: 30000, Run: share},
		},
		Require: []string{"on_s3", "tables_deleted", "wals_deleted", "dropped_wals_gone", "files_watched", "audits", "reopenings", "shared_tables", "needs_asked", "needs_failed", "redeployed_in_process", "retentions_skipped", "states_compared", "tables_left_to_neighbour", "collected_while_loading", "late_retentions", "tables_of_first_deployment"},
	})
}

// watch knows which files must exist.
type watch struct {
	c       *vlib.Case
	fs      *dkvx.FS
	mu      sync.Mutex
	need    map[string]int // path -> retained checkpoints that reference it
	cks     map[*ck]bool
	ntDel   bool
	deleted map[string]bool
	sig     string
}

type ck struct {
	h      recovery.CheckpointHandle
	files  []string // tables and logs
	tables []string
	wals   []string
	snap   dkvx.Ref
	none   bool // of an operator without key groups
}

func newWatch(c *vlib.Case, fs *dkvx.FS) *watch {
	return &watch{c: c, fs: fs, need: map[string]int{}, cks: map[*ck]bool{}, deleted: map[string]bool{}}
}

// deleting is called ahead of each removal.
func (w *watch) deleting(p string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.deleted[p] = true
	if w.need[p] > 0 {
		for k := range w.cks {
			if slices.Contains(k.files, p) {
				w.c.Report(w.sig+"deleted", "%s is deleted although retained checkpoint %v references it", p, k.h)
				return
			}
		}
	}
	if len(p) > 4 && p[len(p)-4:] == ".wal" {
		w.c.Count("wals_deleted", 1)
	} else {
		w.c.Count("tables_deleted", 1)
	}
}

// add starts watching a completed checkpoint.
func (w *watch) add(fs storage.FileSystem, h recovery.CheckpointHandle) *ck {
	tables, wals, err := dkvx.Refs(fs, h)
	if err != nil {
		w.c.Fail("list", "completed checkpoint %v: %v", h, err)
	}
	k := &ck{h: h, files: append(slices.Clone(tables), wals...), tables: tables, wals: wals}
	w.mu.Lock()
	w.cks[k] = true
	for _, f := range k.files {
		w.need[f]++
	}
	w.mu.Unlock()
	w.c.Count("files_watched", len(k.files))
	return k
}

// drop stops watching, ahead of the retention update.
func (w *watch) drop(k *ck) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.cks[k] {
		return
	}
	delete(w.cks, k)
	for _, f := range k.files {
		if w.need[f]--; w.need[f] == 0 {
			delete(w.need, f)
		}
	}
	for x := range w.cks {
		for _, f := range x.tables {
			if slices.Contains(k.tables, f) {
				w.c.Count("shared_tables", 1)
				w.ntDel = true
			}
		}
	}
}

func (w *watch) retained() []*ck {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*ck
	for k := range w.cks {
		out = append(out, k)
	}
	slices.SortFunc(out, func(a, b *ck) int {
		return int(a.h.CheckpointID) - int(b.h.CheckpointID)
	})
	return out
}

// audit looks at every watched file.
func (w *watch) audit(fs storage.FileSystem, exists func(string) bool, when string) {
	w.c.Count("audits", 1)
	for _, k := range w.retained() {
		for _, f := range k.files {
			if !exists(f) {
				w.c.Fail(w.sig+"missing", "%s: %s is gone although retained checkpoint %v references it", when, f, k.h)
			}
		}
		tables, wals, err := dkvx.Refs(fs, k.h)
		if err != nil {
			w.c.Fail("list", "%s: the list of retained checkpoint %v: %v", when, k.h, err)
		}
		for _, f := range append(tables, wals...) {
			if !slices.Contains(k.files, f) && !exists(f) {
				w.c.Fail(w.sig+"missing", "%s: %s is gone although the list of retained checkpoint %v names it now", when, f, k.h)
			}
		}
	}
}

// ---- one database

type world struct {
	c       *vlib.Case
	r       *rand.Rand
	w       *watch
	fs      storage.FileSystem // view of the current directory
	at      func(dir string) storage.FileSystem
	exists  func(string) bool
	db      *dkv.DB
	m       dkvx.Ref
	keys    [][]byte
	seq     int
	big     int
	id      uint64
	dirN    int
	faults  bool
	fail    atomic.Int64
	dropped []*ck
	pend    []*pending
	maxMem  int
}

type pending struct {
	id   uint64
	snap dkvx.Ref
	res  chan error
	h    recovery.CheckpointHandle
	drop bool
}

func database(c *vlib.Case, faults bool) {
	fs := dkvx.Either(c, c.R)
	w := &world{c: c, r: c.R, w: newWatch(c, fs), at: func(d string) storage.FileSystem { return fs.At(d) }, exists: fs.Exists, faults: faults}
	var n atomic.Uint64
	n.Store(uint64(c.Seed))
	rnd := func(k uint64) bool {
		x := n.Add(0x9e3779b97f4a7c15)
		x ^= x >> 30
		x *= 0xbf58476d1ce4e5b9
		return x>>40%k == 0
	}
	fs.OnSave(func(p string) error {
		if f := w.fail.Load(); f > 0 && rnd(uint64(f)) {
			c.Count("save_faults", 1)
			return dkvx.ErrInjected
		}
		if rnd(6) {
			time.Sleep(100 * time.Microsecond)
		}
		return nil
	})
	fs.OnDelete(func(p string) error {
		w.w.deleting(p)
		if f := w.fail.Load(); f > 0 && rnd(uint64(f)) {
			c.Count("delete_faults", 1)
			return dkvx.ErrInjected
		}
		return nil
	})
	w.run(400)
}

// local runs on a real directory.
func local(c *vlib.Case) {
	dir, err := os.MkdirTemp("", "c09-")
	if err != nil {
		c.Fail("setup", "%v", err)
	}
	defer os.RemoveAll(dir)
	w := &world{c: c, r: c.R, w: newWatch(c, nil),
		at:     func(d string) storage.FileSystem { return storage.NewLocalFilesystem(dir + d) },
		exists: func(p string) bool { _, err := os.Stat(p); return err == nil }}
	w.run(60)
}

func (w *world) run(n int) {
	c, r := w.c, w.r
	w.keys, w.big, w.m = dkvx.Keys(r), []int{8, 40, 400}[r.Intn(3)], dkvx.Ref{}
	w.maxMem = 30 + r.Intn(500)
	w.fs = w.at("/w0")
	w.open(nil)
	for i, n := 0, n/4+r.Intn(n); i < n; i++ {
		switch x := r.Intn(100); {
		case x < 60:
			dkvx.Write(r, w.db, w.m, w.keys, &w.seq, w.big)
		case x < 72:
			w.collect(false)
			if len(w.pend) < 3 {
				w.checkpoint()
			}
			if r.Intn(2) == 0 {
				w.collect(true)
			}
		case x < 80:
			w.retain()
		case x < 83:
			dkvx.Wait(w.db)
		case x < 88:
			w.gc("garbage collection")
		case x < 90:
			if err := dkvx.CheckAll(w.db, w.m, w.keys); err != nil {
				c.Fail("read", "%v", err)
			}
		case x < 91:
			w.reopen()
		case x < 93 && w.faults:
			if w.fail.Load() > 0 {
				w.fail.Store(0)
			} else {
				w.fail.Store(int64(2 + r.Intn(6)))
			}
		}
		c.StopIfFailed()
	}
	w.fail.Store(0)
	w.collect(true)
	dkvx.Wait(w.db)
	w.checkpoint()
	w.collect(true)
	w.gc("end")
	if err := dkvx.CheckAll(w.db, w.m, w.keys); err != nil {
		c.Fail("read", "%v", err)
	}
	for _, k := range w.w.retained() {
		o := dkvx.Options(r, 1000)
		o.FileSystem = w.at("/probe")
		if f, ok := o.FileSystem.(*dkvx.FS); ok {
			o.FileSystem = f.Clone().At("/probe")
		} else if r.Intn(3) > 0 {
			continue
		}
		o.DataOwnership = keep{}
		db, err := dkvx.OpenSafe(o, []recovery.CheckpointHandle{k.h})
		if err != nil {
			c.Fail("restore", "retained checkpoint %v: %v", k.h, err)
		}
		if err := dkvx.CheckAll(db, k.snap, w.keys); err != nil {
			c.Fail("restore", "retained checkpoint %v: %v", k.h, err)
		}
		dkvx.Wait(db)
		db.Close()
		runtime.KeepAlive(db)
		c.Count("restores", 1)
	}
	w.db.Close()
	runtime.KeepAlive(w.db)
	if w.w.ntDel {
		c.NonTrivial(w.seq, w.id, len(w.w.deleted), w.dirN)
	}
}

// keep leaves the files of an inspected checkpoint alone.
type keep struct{}

func (keep) OwnsKey([]byte) bool                                       { return true }
func (keep) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) { return false, nil }

func (w *world) open(hs []recovery.CheckpointHandle) {
	o := dkvx.Options(w.r, w.maxMem)
	o.FileSystem = w.fs
	w.c.Trace("open %v mem=%d target=%d wal=%d l0=%d", hs, o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger)
	db, err := dkvx.OpenSafe(o, hs)
	if err != nil {
		w.c.Fail("restore", "%v", err)
	}
	w.db = db
}

func (w *world) checkpoint() {
	w.id++
	p := &pending{id: w.id, snap: w.m.Clone(), res: make(chan error, 1)}
	w.c.Trace("checkpoint %d", p.id)
	wait := w.db.Checkpoint(p.id)
	go func() {
		h, err := wait()
		p.h = h
		p.res <- err
	}()
	w.pend = append(w.pend, p)
}

func (w *world) collect(block bool) {
	var rest []*pending
	for _, p := range w.pend {
		var err error
		if block {
			err = <-p.res
		} else {
			select {
			case err = <-p.res:
			default:
				rest = append(rest, p)
				continue
			}
		}
		if err != nil {
			if !w.faults {
				w.c.Fail("checkpoint", "checkpoint %d failed without a fault: %v", p.id, err)
			}
			continue
		}
		w.c.Count("checkpoints", 1)
		if !p.drop {
			w.w.add(w.fs, p.h).snap = p.snap
		}
	}
	w.pend = rest
}

func (w *world) retain() {
	ks := w.w.retained()
	if len(ks) == 0 {
		return
	}
	newest := ks[len(ks)-1]
	var ids []uint64
	var drop, kept []*ck
	for _, k := range ks {
		if k == newest || w.r.Intn(4) == 0 {
			ids = append(ids, k.h.CheckpointID)
			kept = append(kept, k)
		} else {
			drop = append(drop, k)
		}
	}
	for _, p := range w.pend {
		p.drop = p.drop || p.id < newest.h.CheckpointID
	}
	w.r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	w.c.Trace("retain %v", ids)
	for _, k := range drop {
		w.w.drop(k)
		w.dropped = append(w.dropped, k)
	}
	err := w.db.UpdateRetainedCheckpoints(ids)
	if err != nil {
		if !w.faults {
			w.c.Fail("retain", "retention update %v: %v", ids, err)
		}
		return
	}
	for _, d := range w.dropped {
		for _, f := range d.wals {
			used := false
			for _, k := range w.w.retained() {
				used = used || slices.Contains(k.wals, f)
			}
			for _, k := range kept {
				used = used || slices.Contains(k.wals, f)
			}
			if !used && w.exists(f) {
				w.c.Fail("wal-left", "%s, only referenced by dropped checkpoint %v, still exists after retention update %v", f, d.h, ids)
			}
			w.c.Count("dropped_wals_gone", 1)
		}
	}
	w.dropped = nil
}

func (w *world) gc(when string) {
	dkvx.GC()
	w.w.audit(w.fs, w.exists, when)
}

// reopen restores one of the retained checkpoints, as a redeployed operator does.
func (w *world) reopen() {
	w.fail.Store(0)
	w.collect(w.r.Intn(2) == 0)
	ks := w.w.retained()
	if len(ks) == 0 {
		return
	}
	k := ks[len(ks)-1]
	if w.r.Intn(4) == 0 {
		k = ks[w.r.Intn(len(ks))]
	}
	w.c.Trace("reopen %v", k.h)
	w.c.Count("reopenings", 1)
	old := w.db
	if err := old.Close(); err != nil {
		w.c.Fail("close", "%v", err)
	}
	// results of checkpoints in flight are of no interest to the restarted job
	for _, p := range w.pend {
		<-p.res
	}
	w.pend = nil
	for _, x := range ks {
		if x != k {
			w.w.drop(x)
		}
	}
	w.dropped = nil // nobody removes those
	w.dirN++
	w.fs = w.at(fmt.Sprintf("/w%d", w.dirN))
	if w.id > k.h.CheckpointID && w.r.Intn(2) == 0 {
		w.id = k.h.CheckpointID
	}
	w.m = k.snap.Clone()
	w.open([]recovery.CheckpointHandle{k.h})
	if w.r.Intn(2) == 0 {
		dkvx.Wait(old)
		runtime.KeepAlive(old)
	}
	w.gc("reopened")
}

// ---- operators that share tables

func share(c *vlib.Case) {
	r := c.R
	p := opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(6), TimerCache: 1 << 20,
		Aspects: [][]string{opx.State, opx.Liveness}, BigValues: 60, MaxMem: 100 + r.Intn(1500), NoTimers: r.Intn(2) == 0}
	w := opx.New(c, p)
	defer w.Close()
	wt := newWatch(c, w.FS)
	w.FS.OnDelete(func(f string) error { wt.deleting(f); return nil })
	var mode atomic.Int64
	var n atomic.Uint64
	n.Store(uint64(c.Seed))
	w.NeedsFault = func(ctx context.Context, from, to, uri string) error {
		c.Count("needs_asked", 1)
		x := n.Add(0x9e3779b97f4a7c15)
		x ^= x >> 30
		x *= 0xbf58476d1ce4e5b9
		x >>= 20
		switch m := mode.Load(); {
		case m == 1 || m == 3 && x%3 == 0:
			c.Count("needs_failed", 1)
			return errors.New("unavailable")
		case m == 2 || m == 3 && x%3 == 1:
			c.Count("needs_delayed", 1)
			t := time.NewTimer(time.Duration(x%2000) * time.Microsecond)
			defer t.Stop()
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-t.C:
			}
		}
		return nil
	}
	srs := []string{"sr-0", "sr-1"}[:1+r.Intn(2)]
	var nodes []*opx.Node
	var last *opx.Ckpt // what the job would restart from
	var lastCks []*ck
	id := uint64(0)
	seq := 0
	var dropped []*ck
	audit := func(when string) {
		if r.Intn(3) == 0 {
			return
		}
		dkvx.GC()
		wt.audit(w.FS, w.FS.Exists, when)
		c.StopIfFailed()
	}
	gens := 2 + r.Intn(3)
	for gen := 0; gen < gens; gen++ {
		k := 1 + r.Intn(5)
		kept := 0
		switch r.Intn(3) {
		case 0: // all processes fail
			for _, x := range nodes {
				x.Kill()
			}
			nodes = nil
		case 1: // some fail
			var rest []*opx.Node
			for _, x := range nodes {
				if r.Intn(2) == 0 {
					x.Kill()
				} else {
					rest = append(rest, x)
				}
			}
			nodes = rest
		}
		r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		if len(nodes) > k {
			nodes = nodes[:k] // the others stay alive, unused
			c.Count("left_over_processes", 1)
		}
		kept = len(nodes)
		for len(nodes) < k {
			seq++
			nodes = append(nodes, w.Start(fmt.Sprint("op-", seq))...)
		}
		r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		mode.Store(int64(r.Intn(4)))
		d := w.Deploy(nodes, srs, last)
		c.Count("redeployed_in_process", kept)
		dropped = nil
		audit("deployed")
		steps := 2 + r.Intn(5)
		for s := 0; s < steps; s++ {
			for i := r.Intn(60); i > 0; i-- {
				if r.Intn(15) == 0 {
					d.Advance()
				} else {
					d.Tracked(srs[r.Intn(len(srs))])
				}
			}
			if r.Intn(2) == 0 {
				mode.Store(int64(r.Intn(4)))
			}
			switch r.Intn(5) {
			case 0:
				audit("written")
			case 1:
				d.Probe()
			}
			id++
			if r.Intn(10) == 0 {
				id += uint64(r.Intn(100))
			}
			ckpt := d.Checkpoint(id, r.Intn(3))
			if r.Intn(4) == 0 { // a source runner's acknowledgement got lost: the job doesn't complete it
				c.Count("checkpoints_incomplete", 1)
				audit("incomplete checkpoint")
				continue
			}
			var cks []*ck
			for _, o := range ckpt.Ops {
				x := wt.add(w.FS, recovery.CheckpointHandle{CheckpointID: o.CheckpointId, URI: o.DkvFileUri})
				x.none = o.KeyGroupRange.GetStart() == o.KeyGroupRange.GetEnd()
				cks = append(cks, x)
			}
			audit("checkpoint")
			for _, x := range lastCks {
				wt.drop(x)
			}
			dropped = append(dropped, lastCks...)
			last, lastCks = ckpt, cks
			if r.Intn(4) == 0 {
				c.Count("retentions_skipped", 1) // the operators don't hear of it
				continue
			}
			if r.Intn(3) == 0 {
				for i := r.Intn(40); i > 0; i-- {
					d.Tracked(srs[r.Intn(len(srs))])
				}
			}
			if err := d.Retain(id); err != nil {
				c.Fail("retain", "retaining checkpoint %d: %v", id, err)
			}
			audit("retained")
			for _, x := range dropped {
				if x.none { // restored by nobody, so no database drops it
					continue
				}
				for _, f := range x.wals {
					if w.FS.Exists(f) {
						c.Fail("wal-left", "%s, only referenced by dropped checkpoint %v, still exists after %d was retained", f, x.h, id)
					}
					c.Count("dropped_wals_gone", 1)
				}
			}
			dropped = nil
		}
		if last != nil && r.Intn(3) == 0 {
			mode.Store(0)
			w.Contents(last)
		}
		d.Probe()
		audit("generation")
	}
	if wt.ntDel {
		c.NonTrivial(c.Index)
	}
}

// handover: an operator stops using tables that it shares with a neighbour, whose key groups are
// then given to another operator. The garbage collector finds the tables while the neighbour is
// deployed anew and the operator itself isn't yet, or, left over, never will be.
func handover(c *vlib.Case, leftOver bool) {
	r := c.R
	p := opx.Params{Groups: 2 + r.Intn(10), MaxBatch: 1 + r.Intn(4), TimerCache: 1 << 20,
		Aspects: [][]string{opx.State, opx.Liveness}, BigValues: 60, MaxMem: 100 + r.Intn(400), NoTimers: true}
	w := opx.New(c, p)
	defer w.Close()
	wt := newWatch(c, w.FS)
	w.FS.OnDelete(func(f string) error { wt.deleting(f); return nil })
	srs := []string{"sr-0"}
	a := w.Start("op-a")[0]
	write := func(d *opx.Dep, n int) {
		for ; n > 0; n-- {
			d.Tracked("sr-0")
		}
	}
	d := w.Deploy([]*opx.Node{a}, srs, nil)
	write(d, 50+r.Intn(200))
	k1 := d.Checkpoint(1, 0)
	add := func(k *opx.Ckpt) (out []*ck) {
		for _, o := range k.Ops {
			out = append(out, wt.add(w.FS, recovery.CheckpointHandle{CheckpointID: o.CheckpointId, URI: o.DkvFileUri}))
		}
		return
	}
	c1 := add(k1)
	b := w.Start("op-b")[0]
	d = w.Deploy([]*opx.Node{a, b}, srs, k1)
	// a table is looked at once, when the garbage collector finds it: not yet
	dkvx.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	// many writes of the operator's keys, few or none of its neighbour's
	for i, n := 0, 100+r.Intn(300); i < n; i++ {
		n, ev, _ := d.NewEvent("sr-0")
		if n == b && r.Intn(20) > 0 {
			continue
		}
		if err := d.Send(context.Background(), n, "sr-0", ev); err != nil {
			c.Fail("send", "%v", err)
		}
	}
	k2 := d.Checkpoint(2, 0)
	c2 := add(k2)
	for _, f := range c2[1].tables {
		if !slices.Contains(c2[0].tables, f) && slices.Contains(c1[0].tables, f) {
			c.Count("tables_left_to_neighbour", 1)
		}
	}
	for _, x := range c1 {
		wt.drop(x)
	}
	if err := d.Retain(2); err != nil {
		c.Fail("retain", "%v", err)
	}
	// b moves, x takes its place
	x := w.Start("op-x")[0]
	nodes := []*opx.Node{b, x}
	if !leftOver {
		nodes = append(nodes, a)
		r.Shuffle(3, func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		moved := make(chan struct{})
		late := r.Intn(2) == 0
		if r.Intn(3) == 0 {
			w.Loading = func(n *opx.Node) {
				if n == b {
					dkvx.GC()
					c.Count("collected_while_loading", 1)
				}
			}
		}
		w.PostDeploy = func(n *opx.Node) {
			if n == b {
				close(moved)
			}
		}
		w.PreDeploy = func(n *opx.Node) {
			if n == a || n == x && r.Intn(2) == 0 {
				<-moved
				if late { // the job still had to tell the operators of the checkpoint
					if err := b.Op.HandleRemoveCheckpoints(context.Background(), &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: []uint64{2}}); err == nil {
						c.Count("late_retentions", 1)
					}
				}
				dkvx.GC()
			}
		}
	}
	d = w.Deploy(nodes, srs, k2)
	w.PreDeploy, w.PostDeploy, w.Loading = nil, nil, nil
	c.Count("handovers", 1)
	if !leftOver {
		dkvx.GC()
		wt.audit(w.FS, w.FS.Exists, "deployed")
		write(d, r.Intn(100))
	}
	d.Probe()
	c3 := add(d.Checkpoint(3, 0))
	if leftOver || r.Intn(2) == 0 {
		for _, x := range c2 {
			wt.drop(x)
		}
		if err := d.Retain(3); err != nil {
			c.Fail("retain", "%v", err)
		}
		for _, k := range c3 {
			for _, f := range k.tables {
				if slices.Contains(c1[0].tables, f) {
					c.Count("tables_of_first_deployment", 1)
				}
			}
		}
	}
	dkvx.GC()
	wt.audit(w.FS, w.FS.Exists, "checkpoint")
	d.Probe()
	if len(wt.deleted) > 0 {
		c.NonTrivial(c.Index)
	}
}
