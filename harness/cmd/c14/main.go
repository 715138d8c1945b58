// C14: savepoints are self-contained and restore the checkpointed job state.
package main

import (
	"time"

	"verif/harness/snapx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C14", Level: "exploration", Recycle: 15,
		Rule: "request: real snapshot stores over a gated storage location and real databases; savepoints are requested at any moment (before, between acknowledgements, folded into checkpoints, while earlier publications and copies are held back); every savepoint file equals the acknowledgements of a completed checkpoint for which one was requested, every requested and completed one appears, requests during a checkpoint give its id and start nothing, and after all other files are deleted each opens with the positions, splitter state and database contents acknowledged. restore, local, s3: real operators deployed by the real Assembly over observed memory, a real directory or an S3 bucket, 2-4 processes of the job with 1-4 operators, state in memory, WALs and many tables, GC forced, retention applied, events and newer checkpoints while copies are held back; then the job ends and restarts with another number of operators from any savepoint, with or without the working storage, or from its newest checkpoint: the reference handler compares every key's state, timers fire once and on time, and source positions and splitter state are those acknowledged; the store reports no failure meanwhile. Non-trivial: a savepoint was restored.",
		Suites: []vlib.Suite{
			{Name: "request", Quick: 1200, Thorough: 150000, Run: request},
			{Name: "restore", Quick: 150, Thorough: 30000, Run: func(c *vlib.Case) { restore(c, newMemory(c)) }},
			{Name: "local", Quick: 24, Thorough: 3000, Run: func(c *vlib.Case) { restore(c, newLocal(c)) }},
			{Name: "s3", Quick: 80, Thorough: 15000, Run: func(c *vlib.Case) { restore(c, newS3(c)) }},
		},
		Require: []string{"savepoints", "savepoints_folded", "wipes", "starts_from_savepoint", "parts_restored", "restored_after_wipe", "restored_in_place", "restored_checkpoint", "states_compared", "timers_fired", "scaled_out", "scaled_in", "held_operations", "second_generation_savepoints", "positions_compared", "mid_checkpoint_requests", "checkpoints_reopened"},
	})
}

var ops, srs = []string{"op-0", "op-1"}, []string{"sr-0", "sr-1"}

// request asks for savepoints at any moment of the store's work and restores all of them.
func request(c *vlib.Case) {
	r := c.R
	w := snapx.New(c, snapx.Savings)
	defer w.Close()
	w.Retain = true
	start := ""
	for round, n := 0, 1+r.Intn(3); round < n; round++ {
		w.Open(start)
		start = ""
		w.Loc.Gate(r.Intn(3) > 0)
		pauses := r.Intn(3)
		for i, n := 0, 20+r.Intn(60); i < n; i++ {
			for k := 0; k < pauses; k++ {
				time.Sleep(20 * time.Microsecond)
			}
			m := w.Pending
			switch x := r.Intn(100); {
			case x < 15:
				w.Create(ops[:], srs, r.Intn(3) == 0)
			case x < 25:
				w.Create(ops, srs, true)
				if m != nil {
					c.Count("mid_checkpoint_requests", 1)
				}
			case x < 60:
				if m == nil {
					continue
				}
				if i := r.Intn(len(m.Ops) + len(m.SRs)); i < len(m.Ops) {
					if !w.Acked(m, m.Ops[i]) {
						w.SendOp(w.OpAck(m.ID, m.Ops[i]))
					}
				} else {
					w.SendSR(w.SrAck(m.ID, m.SRs[i-len(m.Ops)]))
				}
			case x < 85:
				if h := w.Loc.Held(); len(h) > 0 {
					k := r.Intn(len(h))
					c.Trace("%s %s continues", h[k].Kind, h[k].Path)
					w.Loc.Release(k, nil)
					c.Count("held_operations", 1)
				}
			default:
				k := 1
				w.Drain(&k)
			}
			c.StopIfFailed()
		}
		w.Quiet()
		w.Crash()
		if r.Intn(3) == 0 && round+1 < n {
			if start = w.Savepoint(); start != "" && r.Intn(2) == 0 {
				w.Wipe()
			}
		}
	}
	all := w.Savepoints()
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, p := range all[:min(3, len(all))] {
		w.Wipe()
		w.Open(p)
		c.StopIfFailed()
		w.Crash()
		c.Count("restored_after_wipe", 1)
	}
	if len(all) > 0 {
		c.NonTrivial(c.Index, len(all))
	}
}
