// C07: Get and ScanPrefix against a sequential map while flushes and compactions run.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"reduction.dev/reduction/dkv"
	"verif/harness/dkvx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C07", Level: "exploration",
		Rule: "random put/delete/get/scan sequences on a real dkv.DB with memtable, WAL, table and compaction limits small enough that rotation, flush and compaction happen every few writes; suites: background tasks free-running with randomly delayed file saves; flushes held at a gate while reads are checked with several sealed memtables, then released in steps; flush completion forced in the middle of a read through a hook; failing table saves; tables compacted away and garbage collected (their files deleted) in the middle of a read that uses them. Every read is compared with a sequential map. Non-trivial: at least one flush and (free, faults) one compaction or (gated, midread) a read while a flush was held back",
		Suites: []vlib.Suite{
			{Name: "free", Quick: 1200, Thorough: 12000, Run: free},
			{Name: "gated", Quick: 800, Thorough: 8000, Run: gated},
			{Name: "midread", Quick: 400, Thorough: 4000, Run: midread},
			{Name: "faults", Quick: 250, Thorough: 2500, Run: faults},
			{Name: "collected", Quick: 60, Thorough: 6000, Run: reading},
			{Name: "load", Quick: 8, Thorough: 80, Run: load},
		},
		Require:         []string{"gets", "scans", "scan_entries", "table_saves", "reads_with_sealed_memtables", "flush_completed_inside_read", "reads_with_sst", "collected_while_reading"},
		HangIsViolation: false,
	})
}

type env struct {
	c     *vlib.Case
	r     *rand.Rand
	fs    *dkvx.FS
	db    *dkv.DB
	m     dkvx.Ref
	keys  [][]byte
	big   int
	seq   int
	saves atomic.Int64
}

func newEnv(c *vlib.Case, maxMem int) *env {
	r := c.R
	e := &env{c: c, r: r, fs: dkvx.Either(c, r), m: dkvx.Ref{}, keys: dkvx.Keys(r), big: []int{8, 40, 400}[r.Intn(3)]}
	o := dkv.DBOptions{
		FileSystem:                  e.fs,
		MemTableSize:                uint64(20 + r.Intn(maxMem)),
		TargetFileSize:              uint64(20 + r.Intn(2000)),
		MaxWALSize:                  uint64(20 + r.Intn(3000)),
		L0TableNumCompactionTrigger: 1 + r.Intn(6),
	}
	if r.Intn(5) == 0 {
		o.L0TableNumCompactionTrigger = 1000
	}
	c.Trace("options mem=%d target=%d wal=%d l0=%d", o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger)
	e.db = dkv.Open(o, nil)
	return e
}

func (e *env) key() []byte { return e.keys[e.r.Intn(len(e.keys))] }

func (e *env) write() {
	k := e.key()
	if e.r.Intn(4) == 0 {
		e.c.Trace("delete %s", dkvx.Short(k))
		e.db.Delete(append([]byte{}, k...))
		delete(e.m, string(k))
		return
	}
	e.seq++
	v := fmt.Sprintf("%d", e.seq)
	switch e.r.Intn(8) {
	case 0:
		v = ""
	case 1:
		v += strings.Repeat("x", e.r.Intn(e.big))
	}
	e.c.Trace("put %s %s", dkvx.Short(k), dkvx.Short([]byte(v)))
	e.db.Put(append([]byte{}, k...), []byte(v))
	e.m[string(k)] = v
}

func (e *env) get(k []byte) {
	e.c.Count("gets", 1)
	if err := dkvx.CheckGet(e.db, e.m, k); err != nil {
		e.c.Fail("get", "%v\n%s", err, e.db.Diagnostics())
	}
}

func (e *env) scan(p []byte) {
	e.c.Count("scans", 1)
	n, err := dkvx.CheckScan(e.db, e.m, p)
	e.c.Count("scan_entries", n)
	if err != nil {
		e.c.Fail("scan", "%v\n%s", err, e.db.Diagnostics())
	}
}

func (e *env) read() {
	if e.saves.Load() > 0 {
		e.c.Count("reads_with_sst", 1)
	}
	if e.r.Intn(3) > 0 {
		k := e.key()
		if e.r.Intn(10) == 0 {
			k = append(append([]byte{}, k...), 0)
		}
		e.get(k)
		return
	}
	e.scan(e.prefix())
}

func (e *env) prefix() []byte {
	if e.r.Intn(4) == 0 {
		return nil
	}
	k := e.key()
	p := append([]byte{}, k[:e.r.Intn(len(k)+1)]...)
	if e.r.Intn(12) == 0 {
		p = append(p, 0xff)
	}
	return p
}

func (e *env) all() {
	for _, k := range e.keys {
		e.get(k)
	}
	e.scan(nil)
	for i := 0; i < 5; i++ {
		e.scan(e.prefix())
	}
}

func (e *env) finish() {
	if err := dkvx.Wait(e.db); err != nil {
		e.c.Fail("task", "background task: %v", err)
	}
	e.all()
	e.c.Count("table_saves", e.fs.Saves(".sst"))
	e.c.Distinct("level_layouts", layout(e.db.Diagnostics()))
	e.c.Sample("%d writes over %d keys, %d table files written, layout %s", e.seq, len(e.keys), e.fs.Saves(".sst"), layout(e.db.Diagnostics()))
}

func layout(d string) string {
	var s []string
	for _, l := range strings.Split(d, "\n") {
		if strings.HasPrefix(l, "level ") && strings.Contains(l, "tables") {
			var a, b, z int
			fmt.Sscanf(l, "level %d, tables %d, size %d", &a, &b, &z)
			s = append(s, fmt.Sprint(b))
		}
	}
	return strings.Join(s, ",")
}

func free(c *vlib.Case) {
	e := newEnv(c, 400)
	var lr atomic.Int64
	lr.Store(c.Seed)
	delays := c.R.Intn(3)
	e.fs.OnSave(func(p string) error {
		e.saves.Add(1)
		x := lr.Add(0x1e3779b97f4a7c15)
		switch {
		case delays == 0:
		case x>>60&7 == 0:
			time.Sleep(time.Duration(x>>20&0xff) * time.Microsecond)
		default:
			for i := int64(0); i < x>>50&7; i++ {
				runtime.Gosched()
			}
		}
		return nil
	})
	n := 50 + c.R.Intn(500)
	readPct := 10 + c.R.Intn(70)
	for i := 0; i < n; i++ {
		if c.R.Intn(100) < readPct {
			e.read()
		} else {
			e.write()
		}
		if c.R.Intn(60) == 0 {
			dkvx.Wait(e.db)
		}
		if c.R.Intn(200) == 0 {
			runtime.GC() // table files of dropped levels are removed by cleanups
		}
	}
	e.finish()
	if e.fs.Saves(".sst") > 3 {
		c.NonTrivial(layout(e.db.Diagnostics()), e.fs.Saves(".sst"), n)
	}
}

// gate holds file saves until told otherwise.
type gate struct {
	mu   sync.Mutex
	cond *sync.Cond
	open int // saves allowed
	wait int // savers blocked
	all  bool
}

func newGate() *gate { g := &gate{}; g.cond = sync.NewCond(&g.mu); return g }
func (g *gate) pass(string) error {
	g.mu.Lock()
	g.wait++
	for !g.all && g.open == 0 {
		g.cond.Wait()
	}
	if !g.all {
		g.open--
	}
	g.wait--
	g.mu.Unlock()
	return nil
}
func (g *gate) allow(n int) { g.mu.Lock(); g.open += n; g.cond.Broadcast(); g.mu.Unlock() }
func (g *gate) free()       { g.mu.Lock(); g.all = true; g.cond.Broadcast(); g.mu.Unlock() }
func (g *gate) hold()       { g.mu.Lock(); g.all = false; g.open = 0; g.mu.Unlock() }

func sealed(db *dkv.DB) int {
	n := 0
	for _, l := range strings.Split(db.Diagnostics(), "\n") {
		var k int
		if c, _ := fmt.Sscanf(l, "MemTables (num: %d)", &k); c == 1 {
			n = k - 1
		}
	}
	return n
}

func gated(c *vlib.Case) {
	e := newEnv(c, 200)
	g := newGate()
	e.fs.OnSave(func(p string) error { e.saves.Add(1); return g.pass(p) })
	defer g.free()
	nt := false
	for round := 0; round < 3+c.R.Intn(5); round++ {
		g.hold()
		// stay below the length of the task queues, where rotation blocks the writer
		goal := 1 + c.R.Intn(3)
		for i := 0; i < 400 && sealed(e.db) < goal; i++ {
			e.write()
			if c.R.Intn(3) == 0 {
				e.read()
			}
		}
		if s := sealed(e.db); s > 0 {
			c.Count("reads_with_sealed_memtables", 1)
			c.Distinct("sealed_memtables", s)
			nt = true
		}
		e.all()
		// let the flush write its tables one by one, reading at every step
		for i := 0; i < c.R.Intn(6); i++ {
			g.allow(1)
			for j := 0; j < c.R.Intn(4); j++ {
				runtime.Gosched()
			}
			e.read()
			if c.R.Intn(2) == 0 {
				e.all()
			}
		}
		g.free()
		if c.R.Intn(2) == 0 {
			dkvx.Wait(e.db)
			e.all()
		}
	}
	g.free()
	e.finish()
	if nt {
		c.NonTrivial(layout(e.db.Diagnostics()), e.fs.Saves(".sst"), e.seq)
	}
}

// faults: some table saves fail; nothing that was acknowledged may disappear.
func faults(c *vlib.Case) {
	e := newEnv(c, 300)
	failing := atomic.Bool{}
	var n atomic.Int64
	e.fs.OnSave(func(p string) error {
		e.saves.Add(1)
		if failing.Load() && n.Add(1)%2 == 0 {
			return dkvx.ErrInjected
		}
		return nil
	})
	failed := 0
	for i := 0; i < 30+c.R.Intn(200); i++ {
		if c.R.Intn(20) == 0 {
			dkvx.Wait(e.db)
			failing.Store(c.R.Intn(2) == 0)
		}
		if c.R.Intn(2) == 0 {
			e.write()
		} else {
			e.read()
		}
	}
	dkvx.Wait(e.db) // reports the injected faults
	for _, ev := range e.fs.Events() {
		if ev.Err {
			failed++
		}
	}
	e.all()
	c.Count("failed_table_saves", failed)
	c.Count("table_saves", e.fs.Saves(".sst"))
	if failed > 0 {
		c.NonTrivial(failed, e.seq, layout(e.db.Diagnostics()))
	}
}

// load: larger volumes so that compaction produces several tables per level.
func load(c *vlib.Case) {
	r := c.R
	fs := dkvx.NewFS()
	e := &env{c: c, r: r, fs: fs, m: dkvx.Ref{}, big: 100}
	for i := 0; i < 3000; i++ {
		e.keys = append(e.keys, []byte(fmt.Sprintf("%c%05d", byte(i%7*40), i)))
	}
	e.db = dkv.Open(dkv.DBOptions{FileSystem: fs, MemTableSize: 3000, TargetFileSize: 8000, MaxWALSize: 100000, L0TableNumCompactionTrigger: 1 + r.Intn(4)}, nil)
	e.saves.Add(1)
	for i := 0; i < 6000; i++ {
		e.write()
		if i%7 == 0 {
			e.get(e.key())
		}
		if i%1500 == 0 {
			e.scan(e.prefix())
		}
	}
	if err := dkvx.Wait(e.db); err != nil {
		c.Fail("task", "background task: %v", err)
	}
	for i := 0; i < 500; i++ {
		e.get(e.key())
	}
	for i := 0; i < 7; i++ {
		e.scan([]byte(fmt.Sprintf("%c%02d", byte(i*40), r.Intn(30))))
	}
	e.scan(nil)
	c.Count("table_saves", fs.Saves(".sst"))
	c.Distinct("level_layouts", layout(e.db.Diagnostics()))
	c.NonTrivial(layout(e.db.Diagnostics()), c.Index)
}

// goid identifies the goroutine.
func goid() string {
	b := make([]byte, 40)
	b = b[:runtime.Stack(b, false)]
	return string(b[:bytes.IndexByte(b, '[')])
}

// reading compacts and collects tables away in the middle of reads that use them.
func reading(c *vlib.Case) {
	r := c.R
	fs := dkvx.NewFS()
	var gate dkvx.Gate
	defer gate.Free()
	keys := dkvx.Keys(r)
	m := dkvx.Ref{}
	seq := 0
	o := dkvx.Options(r, 300)
	o.L0TableNumCompactionTrigger = 1 + r.Intn(3)
	o.FileSystem = fs.At("/w")
	fs.OnSave(gate.Pass)
	db, err := dkvx.OpenSafe(o, nil)
	if err != nil {
		c.Fail("restore", "%v", err)
	}
	for round := 0; round < 6; round++ {
		gate.Set(nil)
		for i := r.Intn(100); i > 0; i-- {
			dkvx.Write(r, db, m, keys, &seq, 60)
		}
		dkvx.Wait(db)
		gate.Set(func(p string) bool { return true })
		for i := 10 + r.Intn(40); i > 0; i-- {
			dkvx.Write(r, db, m, keys, &seq, 60)
		}
		n := int64(1 + r.Intn(12))
		var at atomic.Int64
		var self atomic.Bool
		before := len(fs.Events())
		me := goid()
		fs.OnRead(func(p string) error {
			if goid() != me { // a compaction
				return nil
			}
			if at.Add(1) == n && self.CompareAndSwap(false, true) {
				// the reader is in the middle of its work on this file
				gate.Free()
				dkvx.Wait(db)
				dkvx.GC()
				c.Count("collected_while_reading", 1)
			}
			return nil
		})
		if err := dkvx.CheckAll(db, m, keys); err != nil {
			c.Fail("reading", "%v", err)
		}
		fs.OnRead(nil)
		if len(fs.Events()) > before {
			c.NonTrivial(c.Index)
		}
	}
	gate.Free()
	dkvx.Wait(db) // an error of this database would show up in the next one's tasks
	db.Close()
	runtime.KeepAlive(db)
}
