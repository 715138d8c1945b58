package main

import (
	"sync/atomic"
	"time"
	"verif/harness/dkvx"

	"reduction.dev/reduction/util/vhook"
	"verif/harness/vlib"
)

// midread: a flush (or compaction) that was held back completes between the steps of one
// Get or ScanPrefix, through the hook inside these functions.
func midread(c *vlib.Case) {
	e := newEnv(c, 200)
	g := newGate()
	e.fs.OnSave(func(p string) error { e.saves.Add(1); return g.pass(p) })
	defer g.free()
	fired := 0
	armed := atomic.Bool{}
	vhook.Set(func(point string) {
		if !armed.CompareAndSwap(true, false) {
			return
		}
		fired++
		g.free()
		// wait until the background work is done (or gives up waiting: slower, still sound)
		for i := 0; i < 200 && sealed(e.db) > 0; i++ {
			time.Sleep(20 * time.Microsecond)
		}
		if c.R.Intn(2) == 0 {
			dkvx.Wait(e.db)
		}
	})
	defer vhook.Set(nil)
	inside := 0
	for round := 0; round < 4+c.R.Intn(8); round++ {
		dkvx.Wait(e.db)
		g.hold()
		for i := 0; i < 400 && sealed(e.db) < 1+c.R.Intn(2); i++ {
			e.write()
		}
		before := sealed(e.db)
		armed.Store(true)
		f0 := fired
		e.read()
		if fired > f0 && before > 0 && sealed(e.db) == 0 {
			inside++
		}
		armed.Store(false)
		g.free()
		e.all()
	}
	c.Count("flush_completed_inside_read", inside)
	g.free()
	vhook.Set(nil)
	e.finish()
	if inside > 0 {
		c.NonTrivial(layout(e.db.Diagnostics()), inside, e.seq)
	}
}
