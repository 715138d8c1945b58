// C08: databases opened from completed checkpoint handles against the reference snapshot
// taken at the Checkpoint call.
package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"verif/harness/dkvx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C08", Level: "fault_enumeration",
		Rule: "random put/delete sequences on a real dkv.DB with tiny limits, interleaved with checkpoints (awaited or left in flight), retention updates, garbage collections and restarts over several generations. A crash is a copy of the durable files at a random moment or from inside a file save. Every completed, still retained handle is opened in such copies and its full contents (point lookups and scans) compared with the reference map cloned at the Checkpoint call; the opened database then takes further writes, is compared again and is checkpointed and restored in turn. suites: chain (background work free-running), gated (table, WAL and checkpoints-file saves held and released in random order, overlapping checkpoints, retention of older ids while a newer one is in flight), faults (failing saves), inproc (close and reopen on the same files in the same process with forced GC), concurrent (retention updates from another goroutine). Non-trivial: at least one restore whose snapshot differed from the state at the crash or that followed a flush",
		Suites: []vlib.Suite{
			{Name: "chain", Quick: 300, Thorough: 6000, Run: func(c *vlib.Case) { run(c, mode{}) }},
			{Name: "gated", Quick: 300, Thorough: 6000, Run: func(c *vlib.Case) { run(c, mode{gated: true}) }},
			{Name: "faults", Quick: 120, Thorough: 2000, Run: func(c *vlib.Case) { run(c, mode{faults: true}) }},
			{Name: "inproc", Quick: 120, Thorough: 2000, Run: func(c *vlib.Case) { run(c, mode{inproc: true}) }},
			{Name: "concurrent", Quick: 60, Thorough: 1000, Run: concurrent},
		},
		Require: []string{"on_s3", "checkpoints_completed", "restores", "restores_in_save", "restored_keys", "later_writes_excluded", "retentions_with_inflight", "overlapping_checkpoints", "generations", "restores_with_unflushed"},
	})
}

type mode struct{ gated, faults, inproc bool }

type ck struct {
	id   uint64
	h    recovery.CheckpointHandle
	snap dkvx.Ref
	res  chan error
	drop bool // a newer checkpoint was declared the one to retain meanwhile
}

type shot struct {
	fs   *dkvx.FS
	cks  []*ck
	when string
}

type world struct {
	c    *vlib.Case
	r    *rand.Rand
	md   mode
	keys [][]byte
	seq  int
	big  int
	fs   *dkvx.FS
	dir  string
	db   *dkv.DB
	m    dkvx.Ref

	mu    sync.Mutex
	cks   []*ck // completed and retained
	shots []shot

	pend   []*ck
	ret    chan error // outstanding retention update
	nextID uint64
	gate   dkvx.Gate
	fail   atomic.Int64 // save failure probability in 1/1000
	sr     atomic.Int64
	nfail  atomic.Int64
	nt     bool
}

func run(c *vlib.Case, md mode) {
	w := &world{c: c, r: c.R, md: md, keys: dkvx.Keys(c.R), big: []int{8, 40, 400}[c.R.Intn(3)], m: dkvx.Ref{}, fs: dkvx.Either(c, c.R), dir: "/w"}
	w.sr.Store(c.Seed)
	w.gate.Max = 6
	defer w.gate.Free()
	w.open(nil)
	gens := 1 + c.R.Intn(4)
	for g := 0; g < gens && !c.Failed(); g++ {
		w.generation()
		if g+1 < gens {
			w.restart()
		}
	}
	w.finishOps()
	w.probeShots()
	for _, k := range w.retained() {
		w.probe(w.fs.Clone(), k, "end")
	}
	w.db.Close()
	runtime.KeepAlive(w.db)
	c.Sample("%d writes, %d generations, last checkpoint id %d, %d keys live, %d tables, %d WALs, %d checkpoint lists written", w.seq, gens, w.nextID, len(w.m), w.fs.Saves(".sst"), w.fs.Saves(".wal"), w.fs.Saves("checkpoints"))
	if w.nt {
		c.NonTrivial(w.seq, gens, w.nextID, len(w.m), w.fs.Saves(".sst"))
	}
}

func (w *world) rnd(n int64) int64 {
	x := w.sr.Add(0x1e3779b97f4a7c15)
	x ^= int64(uint64(x) >> 29)
	x *= 0x3f58476d1ce4e5b9
	return int64(uint64(x)>>33) % n
}

func (w *world) open(hs []recovery.CheckpointHandle) {
	o := dkvx.Options(w.r, 400)
	o.FileSystem = w.fs.At(w.dir)
	w.fs.OnSave(func(p string) error {
		if f := w.fail.Load(); f > 0 && w.rnd(1000) < f {
			w.nfail.Add(1)
			return dkvx.ErrInjected
		}
		if w.rnd(40) == 0 {
			w.shoot()
		}
		if err := w.gate.Pass(p); err != nil {
			return err
		}
		if w.rnd(8) == 0 {
			time.Sleep(time.Duration(w.rnd(200)) * time.Microsecond)
		}
		return nil
	})
	w.c.Trace("open dir=%s handles=%v mem=%d target=%d wal=%d l0=%d", w.dir, hs, o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger)
	db, err := dkvx.OpenSafe(o, hs)
	if err != nil {
		w.c.Fail("restore", "%v", err)
	}
	w.db = db
}

// shoot copies the durable files from inside a save.
func (w *world) shoot() {
	w.mu.Lock()
	n := len(w.shots)
	before := append([]*ck{}, w.cks...)
	w.mu.Unlock()
	if n >= 3 || len(before) == 0 {
		return
	}
	cl := w.fs.Clone()
	w.mu.Lock()
	defer w.mu.Unlock()
	var keep []*ck
	for _, a := range before {
		for _, b := range w.cks {
			if a == b {
				keep = append(keep, a)
			}
		}
	}
	if len(keep) > 0 {
		w.shots = append(w.shots, shot{cl, keep, "inside a file save"})
	}
}

func (w *world) probeShots() {
	if w.md.gated { // the flush and compaction queues are shared by all databases of the process
		w.gate.Free()
		dkvx.Wait(w.db)
	}
	w.mu.Lock()
	s := w.shots
	w.shots = nil
	w.mu.Unlock()
	for _, x := range s {
		k := x.cks[w.r.Intn(len(x.cks))]
		if x.when == "inside a file save" {
			w.c.Count("restores_in_save", 1)
		}
		w.probe(x.fs, k, x.when)
	}
}

func (w *world) retained() []*ck {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*ck{}, w.cks...)
}

func same(a, b dkvx.Ref) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// probe opens k in an isolated copy of the files.
func (w *world) probe(fs *dkvx.FS, k *ck, when string) {
	c := w.c
	if c.Failed() {
		return
	}
	dkvx.Wait(w.db) // databases of one process share their task queues
	o := dkvx.Options(w.r, 400)
	dir := w.dir
	if w.r.Intn(3) == 0 {
		dir = "/probe"
	}
	o.FileSystem = fs.At(dir)
	c.Trace("probe %v (%s) in %s", k.h, when, dir)
	c.Count("restores", 1)
	c.Count("restored_keys", len(k.snap))
	if !same(k.snap, w.m) {
		c.Count("later_writes_excluded", 1)
		w.nt = true
	}
	db, err := dkvx.OpenSafe(o, []recovery.CheckpointHandle{k.h})
	if err != nil {
		c.Fail("restore", "checkpoint %v opened %s: %v", k.h, when, err)
	}
	defer runtime.KeepAlive(db)
	if dkvx.Sealed(db) > 0 || fs.Saves(".sst") == 0 {
		c.Count("restores_with_unflushed", 1)
	}
	if err := dkvx.CheckAll(db, k.snap, w.keys); err != nil {
		c.Fail("contents", "checkpoint %v opened %s: %v\n%s", k.h, when, err, db.Diagnostics())
	}
	if err := dkvx.Wait(db); err != nil && !w.md.faults { // tasks of several databases share their queues
		c.Fail("task", "restored database: %v", err)
	}
	if err := dkvx.CheckAll(db, k.snap, w.keys); err != nil {
		c.Fail("contents", "checkpoint %v opened %s, after background work: %v\n%s", k.h, when, err, db.Diagnostics())
	}
	if w.r.Intn(3) == 0 { // the restored database takes writes and is itself restorable
		m := k.snap.Clone()
		for i := 0; i < 1+w.r.Intn(40); i++ {
			dkvx.Write(w.r, db, m, w.keys, &w.seq, w.big)
		}
		if err := dkvx.CheckAll(db, m, w.keys); err != nil {
			c.Fail("restored-writes", "writes after restoring %v: %v\n%s", k.h, err, db.Diagnostics())
		}
		h, err := db.Checkpoint(k.id + 1000)()
		if err != nil {
			c.Fail("restored-writes", "checkpoint after restoring %v: %v", k.h, err)
		}
		if w.r.Intn(2) == 0 {
			dkvx.Write(w.r, db, m.Clone(), w.keys, &w.seq, w.big)
		}
		if w.r.Intn(2) == 0 {
			dkvx.Wait(db)
		}
		fs2 := fs.Clone()
		dkvx.Wait(db)
		for _, x := range []struct {
			h recovery.CheckpointHandle
			m dkvx.Ref
		}{{h, m}, {k.h, k.snap}} {
			o := dkvx.Options(w.r, 400)
			o.FileSystem = fs2.At(dir)
			if x.h == k.h {
				o.FileSystem = fs.Clone().At(dir)
			}
			c.Count("restores", 1)
			d2, err := dkvx.OpenSafe(o, []recovery.CheckpointHandle{x.h})
			if err != nil {
				c.Fail("restore", "second generation %v: %v", x.h, err)
			}
			if err := dkvx.CheckAll(d2, x.m, w.keys); err != nil {
				c.Fail("contents", "second generation %v (restored from %v): %v\n%s", x.h, k.h, err, d2.Diagnostics())
			}
			dkvx.Wait(d2)
			runtime.KeepAlive(d2)
		}
	}
	dkvx.Wait(db)
}

func (w *world) checkpoint() *ck {
	w.nextID++
	k := &ck{id: w.nextID, snap: w.m.Clone(), res: make(chan error, 1)}
	w.c.Trace("checkpoint %d (%d live)", k.id, len(k.snap))
	wait := w.db.Checkpoint(k.id)
	go func() {
		h, err := wait()
		k.h = h
		k.res <- err
	}()
	return k
}

// collect takes the results of finished checkpoints.
func (w *world) collect(block bool) {
	var rest []*ck
	for _, k := range w.pend {
		var err error
		done := true
		if block {
			err = <-k.res
		} else {
			select {
			case err = <-k.res:
			default:
				done = false
			}
		}
		if !done {
			rest = append(rest, k)
			continue
		}
		w.done(k, err)
	}
	w.pend = rest
	if w.ret != nil {
		if block {
			<-w.ret
			w.ret = nil
		} else {
			select {
			case <-w.ret:
				w.ret = nil
			default:
			}
		}
	}
}

func (w *world) done(k *ck, err error) {
	if err != nil {
		if !w.md.faults {
			w.c.Fail("checkpoint", "checkpoint %d failed without a fault: %v", k.id, err)
		}
		w.c.Count("checkpoints_failed", 1)
		return
	}
	w.c.Trace("completed %v", k.h)
	w.c.Count("checkpoints_completed", 1)
	if k.h.CheckpointID != k.id {
		w.c.Fail("handle", "checkpoint %d completed with handle %v", k.id, k.h)
	}
	if k.drop {
		return
	}
	w.mu.Lock()
	w.cks = append(w.cks, k)
	w.mu.Unlock()
}

func (w *world) retain() {
	if w.ret != nil {
		return
	}
	w.mu.Lock()
	if len(w.cks) == 0 {
		w.mu.Unlock()
		return
	}
	newest := w.cks[0]
	for _, k := range w.cks {
		if k.id > newest.id {
			newest = k
		}
	}
	var keep []*ck
	var ids []uint64
	for _, k := range w.cks {
		if k == newest || w.r.Intn(4) == 0 {
			keep = append(keep, k)
			ids = append(ids, k.id)
		}
	}
	w.cks = keep
	w.mu.Unlock()
	for _, k := range w.pend {
		k.drop = k.drop || k.id < newest.id
	}
	w.r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	w.c.Trace("retain %v (in flight %d)", ids, len(w.pend))
	if len(w.pend) > 0 {
		w.c.Count("retentions_with_inflight", 1)
	}
	w.c.Count("retentions", 1)
	db := w.db
	if !w.md.gated {
		if err := db.UpdateRetainedCheckpoints(ids); err != nil && !w.md.faults {
			w.c.Fail("retain", "retention update %v: %v", ids, err)
		}
		return
	}
	ch := make(chan error, 1)
	w.ret = ch
	started := make(chan struct{})
	go func() {
		close(started)
		ch <- db.UpdateRetainedCheckpoints(ids)
	}()
	<-started
	if w.r.Intn(2) == 0 {
		dkvx.Settle(200*time.Microsecond, func() bool { return len(ch) > 0 })
	}
}

func (w *world) generation() {
	c, r := w.c, w.r
	n := 20 + r.Intn(250)
	for i := 0; i < n && !c.Failed(); i++ {
		switch x := r.Intn(100); {
		case x < 78:
			if w.md.gated {
				for dkvx.Sealed(w.db) >= 3 && len(w.gate.Held()) > 0 {
					w.release()
					dkvx.Settle(300*time.Microsecond, func() bool { return dkvx.Sealed(w.db) < 3 })
				}
			}
			c.Trace("%s", dkvx.Write(r, w.db, w.m, w.keys, &w.seq, w.big))
		case x < 84:
			w.collect(false)
			if len(w.pend) >= 3 {
				w.release()
				continue
			}
			if len(w.pend) > 0 {
				c.Count("overlapping_checkpoints", 1)
			}
			w.pend = append(w.pend, w.checkpoint())
			if !w.md.gated && r.Intn(2) == 0 {
				w.collect(true)
			}
		case x < 88:
			w.collect(false)
			w.retain()
		case x < 91:
			w.collect(false)
			if l := w.retained(); len(l) > 0 {
				k := l[r.Intn(len(l))]
				if !w.md.gated {
					w.probe(w.fs.Clone(), k, "at a random moment")
					continue
				}
				cl := w.fs.Clone()
				w.mu.Lock()
				if len(w.shots) < 6 {
					c.Count("copies_while_held", len(w.gate.Held()))
					w.shots = append(w.shots, shot{cl, []*ck{k}, "while saves were held"})
				}
				w.mu.Unlock()
			}
		case x < 92:
			runtime.GC()
		case x < 96:
			if w.md.gated && r.Intn(8) > 0 {
				w.release()
			} else {
				w.probeShots()
			}
		case x < 97:
			if w.md.gated {
				w.hold()
			}
			if w.md.faults {
				w.fail.Store([]int64{0, 100, 400}[r.Intn(3)])
			}
		default:
			if err := dkvx.CheckAll(w.db, w.m, w.keys); err != nil {
				c.Fail("live", "live database: %v\n%s", err, w.db.Diagnostics())
			}
		}
	}
	c.Count("generations", 1)
}

func (w *world) hold() {
	var pats []string
	for _, s := range []string{".sst", ".wal", "checkpoints"} {
		if w.r.Intn(2) == 0 {
			pats = append(pats, s)
		}
	}
	w.gate.Set(func(p string) bool {
		for _, s := range pats {
			if len(p) >= len(s) && p[len(p)-len(s):] == s {
				return true
			}
		}
		return false
	})
}

func (w *world) release() {
	if h := w.gate.Held(); len(h) > 0 {
		i := w.r.Intn(len(h))
		w.c.Trace("release %s", h[i])
		w.gate.Release(i, nil)
		w.c.Count("held_saves_released", 1)
		dkvx.Settle(300*time.Microsecond, func() bool { return len(w.gate.Held()) >= len(h) })
	}
}

func (w *world) finishOps() {
	w.fail.Store(0)
	w.gate.Free()
	w.collect(true)
	if err := dkvx.Wait(w.db); err != nil && !w.md.faults {
		w.c.Fail("task", "background task: %v", err)
	}
}

// restart moves to the next generation.
func (w *world) restart() {
	c, r := w.c, w.r
	if w.md.inproc || r.Intn(3) == 0 {
		w.finishOps()
	}
	w.fail.Store(0)
	w.probeShots()
	w.collect(false)
	l := w.retained()
	if len(l) == 0 {
		if !w.md.inproc {
			w.gate.Free()
			w.collect(true)
		}
		if l = w.retained(); len(l) == 0 {
			return
		}
	}
	k := l[len(l)-1]
	if r.Intn(4) == 0 {
		k = l[r.Intn(len(l))]
	}
	if !w.md.inproc {
		old, oldDB := w.fs, w.db
		w.fs = old.Clone()
		w.collect(false) // whatever completed meanwhile is abandoned with the crash
		w.gate.Free()
		for _, p := range w.pend {
			<-p.res
		}
		w.pend = nil
		if w.ret != nil {
			<-w.ret
			w.ret = nil
		}
		old.OnSave(nil)
		dkvx.Wait(oldDB)
		runtime.KeepAlive(oldDB)
		oldDB.Close()
	} else {
		w.db.Close()
		w.db = nil
		runtime.GC()
	}
	w.mu.Lock()
	w.cks = []*ck{k}
	w.shots = nil
	w.mu.Unlock()
	if r.Intn(3) == 0 {
		w.dir = fmt.Sprintf("/w%d", k.id)
	}
	c.Count("restores", 1)
	w.m = k.snap.Clone()
	w.open([]recovery.CheckpointHandle{k.h})
	if err := dkvx.CheckAll(w.db, w.m, w.keys); err != nil {
		c.Fail("contents", "restart from %v: %v\n%s", k.h, err, w.db.Diagnostics())
	}
	if w.md.inproc {
		for i := 0; i < 2; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		if err := dkvx.CheckAll(w.db, w.m, w.keys); err != nil {
			c.Fail("contents", "restart from %v, after GC: %v\n%s", k.h, err, w.db.Diagnostics())
		}
		w.probe(w.fs.Clone(), k, "after GC of the previous instance")
	}
}

// concurrent: writer and checkpoints on one goroutine, retention updates on another, as
// the operator uses the database; every save delayed at random.
func concurrent(c *vlib.Case) {
	w := &world{c: c, r: c.R, keys: dkvx.Keys(c.R), big: 40, m: dkvx.Ref{}, fs: dkvx.NewFS(), dir: "/w"}
	w.sr.Store(c.Seed)
	w.open(nil)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	var rerr error
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			w.mu.Lock()
			var ids []uint64
			if n := len(w.cks); n > 0 {
				w.cks = w.cks[n-1:]
				ids = []uint64{w.cks[0].id}
			}
			w.mu.Unlock()
			if ids != nil {
				if err := w.db.UpdateRetainedCheckpoints(ids); err != nil {
					rerr = err
					return
				}
			}
			w.db.NeedsTable("memory:///w/000000.sst")
			runtime.Gosched()
		}
	}()
	for i := 0; i < 8+c.R.Intn(12) && !c.Failed(); i++ {
		for j := 0; j < c.R.Intn(40); j++ {
			dkvx.Write(c.R, w.db, w.m, w.keys, &w.seq, w.big)
		}
		k := w.checkpoint()
		w.pend = append(w.pend, k)
		c.Count("retentions_with_inflight", 1)
		w.collect(true)
		if c.R.Intn(3) == 0 {
			// the newest completed checkpoint can't be dropped before a newer one completes
			w.probe(w.fs.Clone(), k, "with concurrent retention")
		}
	}
	close(stop)
	wg.Wait()
	if rerr != nil {
		c.Fail("retain", "%v", rerr)
	}
	w.finishOps()
	for _, k := range w.retained() {
		w.probe(w.fs.Clone(), k, "end")
	}
	runtime.KeepAlive(w.db)
	c.NonTrivial(w.seq, w.nextID, c.Index)
}
