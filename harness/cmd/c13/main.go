// C13: a restart resumes from the newest completed checkpoint and retention keeps it.
package main

import (
	"fmt"
	"time"

	"verif/harness/snapx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C13", Level: "exploration",
		Rule: "whenever a store starts without a savepoint, its current checkpoint is the one with the highest id among the complete snapshot files present, with the published content, and every operator's part of it opens and holds what the operator had when it acknowledged; no removal takes the newest completed snapshot; an announcement names only published checkpoints, none older than one already completed when it was, never goes back, and the last one of a quiet store names the newest; the current checkpoint never goes back",
		Suites: []vlib.Suite{
			{Name: "stale", Quick: 4000, Thorough: 400000, Run: stale},
			{Name: "overlap", Quick: 4000, Thorough: 400000, Run: overlap},
			{Name: "local", Quick: 1500, Thorough: 60000, Run: local},
			{Name: "s3", Quick: 1500, Thorough: 60000, Run: s3},
		},
		Require: []string{"publications", "removals", "announcements", "starts", "crashes", "starts_from_savepoint", "parts_restored", "loads_among_several", "held_operations", "crashes_with_held_operations", "loads_during_a_write", "pages", "failed_writes", "failed_removals", "writes_broken_off", "looks_at_storage"},
	})
}

// ids are gaps between checkpoint ids such that their encoded names differ at any place.
func gap(c *vlib.Case) uint64 {
	r := c.R
	switch r.Intn(3) {
	case 0:
		return uint64(1 + r.Intn(3))
	case 1:
		return uint64(1 + r.Intn(200))
	}
	return uint64(1 + r.Int63n(1<<uint(1+r.Intn(58))))
}

func complete(w *snapx.World) {
	m := w.Pending
	for _, o := range m.Ops {
		w.SendOp(w.OpAck(m.ID, o))
	}
	for _, s := range m.SRs {
		w.SendSR(w.SrAck(m.ID, s))
	}
}

var ops, srs = []string{"op-0", "op-1"}, []string{"sr-0"}

// stale leaves obsolete snapshot files behind, of any ids, and restarts.
func stale(c *vlib.Case) {
	r := c.R
	w := snapx.New(c, snapx.Newest)
	defer w.Close()
	w.Retain = r.Intn(2) == 0
	start := ""
	for round, n := 0, 2+r.Intn(8); round < n; round++ {
		w.Open(start)
		start = ""
		for k := r.Intn(4); k > 0; k-- {
			stuck := r.Intn(3) > 0
			w.Loc.Stuck(stuck)
			w.Create(ops, srs, r.Intn(4) == 0)
			complete(w)
			w.Quiet()
			if stuck {
				c.Count("failed_removals", 1)
			}
			w.Drain(nil)
			time.Sleep(time.Duration(r.Intn(2)) * 50 * time.Microsecond)
		}
		w.Crash()
		if n := w.Snapshots(); n > 1 {
			c.Count("loads_among_several", 1)
			c.NonTrivial(c.Index, n)
		}
		switch r.Intn(4) {
		case 0, 1:
			if m := w.Max(); m < 1<<61 { // continue with much higher ids
				start = w.Seed(m + gap(c))
			}
		case 2:
			start = w.Savepoint()
		}
	}
	w.Open("")
	c.StopIfFailed()
}

// overlap holds back storage operations of consecutive publications and crashes anywhere.
func overlap(c *vlib.Case) {
	r := c.R
	w := snapx.New(c, snapx.Newest)
	defer w.Close()
	w.Retain = true
	start := ""
	if r.Intn(2) == 0 {
		start = w.Seed(gap(c))
	}
	for round, n := 0, 1+r.Intn(3); round < n; round++ {
		w.Open(start)
		start = ""
		w.Loc.Gate(true)
		pauses := r.Intn(3)
		for i, n := 0, 10+r.Intn(40); i < n; i++ {
			for k := 0; k < pauses; k++ {
				time.Sleep(20 * time.Microsecond)
			}
			switch x := r.Intn(100); {
			case x < 30:
				if w.Pending == nil {
					w.Create(ops, srs, r.Intn(5) == 0)
				}
				complete(w)
			case x < 40:
				if w.Pending == nil {
					w.Create(ops, srs, false)
				}
			case x < 75:
				if h := w.Loc.Held(); len(h) > 0 {
					k := r.Intn(len(h))
					var err error
					if r.Intn(12) == 0 {
						err = snapx.ErrFault
						if h[k].Kind == "remove" {
							c.Count("failed_removals", 1)
						} else {
							w.Fault()
							c.Count("failed_writes", 1)
						}
					}
					c.Trace("%s %s continues: %v", h[k].Kind, h[k].Path, err)
					w.Loc.Release(k, err)
					c.Count("held_operations", 1)
					c.Distinct("held", fmt.Sprint(len(h), h[k].Kind))
				}
			case x < 90:
				k := 1
				w.Drain(&k)
			default:
				w.Look()
			}
			c.StopIfFailed()
		}
		if r.Intn(3) == 0 {
			w.Quiet()
		}
		if n := len(w.Loc.Held()); n > 0 {
			c.Count("crashes_with_held_operations", 1)
			c.NonTrivial(c.Index, n)
		}
		w.Crash()
		if r.Intn(5) == 0 {
			start = w.Savepoint()
		}
	}
	w.Open("")
	c.StopIfFailed()
}
