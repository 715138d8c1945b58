// C12: a job checkpoint is all-or-nothing and checkpoint ids only grow.
package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"slices"
	"sync"

	"verif/harness/snapx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C12", Level: "exploration",
		Rule: "the real snapshots.Store runs over an in-memory storage location which observes every file that appears or disappears; a reference keeps each started checkpoint's expected nodes and every acknowledgement sent to it. Suite acks: random histories of create-checkpoint, create-savepoint, first, repeated, mismatched, late and foreign acknowledgements (wrong ids, strangers, a name in both roles), from ids up to 2^62; restart: the same with process crashes between steps and restarts with or without a savepoint; race: the acknowledgements of five checkpoints from up to 7 goroutines; reissue: crash while a checkpoint is in progress. At every published file: its id was started, all expected nodes acknowledged that id before, it has exactly one entry per operator equal to one it sent, exactly once each split position of one acknowledgement per source runner, and the current splitter's state. At every call: at most one pending, ids above all published and (within a process) all handed out, first valid acknowledgements accepted. The current checkpoint and announcements only ever name published ids, and a completed checkpoint does get published",
		Suites: []vlib.Suite{
			{Name: "acks", Quick: 4000, Thorough: 300000, Run: func(c *vlib.Case) { acks(c, false) }},
			{Name: "restart", Quick: 2500, Thorough: 200000, Run: func(c *vlib.Case) { acks(c, true) }},
			{Name: "race", Quick: 1500, Thorough: 60000, Run: race},
			{Name: "reissue", Quick: 3, Thorough: 3, Run: reissue},
		},
		Require: []string{"publications", "contents_compared", "duplicate_acks", "foreign_acks", "creates_while_pending", "starts", "crashes", "starts_from_savepoint", "savepoints", "checkpoints_completed"},
	})
}

func names(r *rand.Rand, prefix string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint(prefix, i))
	}
	r.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// acks runs a history of checkpoints with good and bad acknowledgements.
func acks(c *vlib.Case, restarts bool) {
	r := c.R
	w := snapx.New(c, snapx.Atomic)
	start := ""
	if r.Intn(4) == 0 {
		start = w.Seed(uint64(r.Int63n(1 << uint(1+r.Intn(62)))))
	}
	w.Open(start)
	for i, n := 0, 20+r.Intn(120); i < n; i++ {
		ops, srs := names(r, "op-", 1+r.Intn(4)), names(r, "sr-", 1+r.Intn(4))
		if r.Intn(10) == 0 { // the same name in both roles
			srs = append(srs, ops[0])
		}
		m := w.Pending
		switch x := r.Intn(100); {
		case x < 15:
			w.Create(ops, srs, r.Intn(4) == 0)
		case m != nil && x < 70: // a good one, perhaps again
			if r.Intn(len(m.Ops)+len(m.SRs)) < len(m.Ops) {
				w.SendOp(w.OpAck(m.ID, m.Ops[r.Intn(len(m.Ops))]))
			} else {
				w.SendSR(w.SrAck(m.ID, m.SRs[r.Intn(len(m.SRs))]))
			}
		case x < 90: // a bad one
			id := uint64(0)
			if m != nil {
				id = m.ID
			}
			switch r.Intn(5) {
			case 0:
				id++
			case 1:
				if id > 0 {
					id--
				}
			case 2:
				id = uint64(r.Int63n(int64(w.Max() + 2)))
			case 3:
				id = 0
			}
			var name string
			switch r.Intn(4) {
			case 0:
				name = fmt.Sprint("op-", r.Intn(6))
			case 1:
				name = fmt.Sprint("sr-", r.Intn(6))
			case 2:
				name = ""
			default:
				name = "stranger"
			}
			if r.Intn(2) == 0 {
				w.SendOp(w.OpAck(id, name))
			} else {
				w.SendSR(w.SrAck(id, name))
			}
		case x < 94:
			w.Look()
			w.Drain(nil)
		case x < 96 && m == nil:
			w.Quiet()
		case x < 98 && restarts:
			if w.Pending == nil {
				if r.Intn(2) == 0 {
					w.Quiet()
				}
				w.Crash()
				sp := ""
				if r.Intn(3) == 0 {
					sp = w.Savepoint()
				}
				w.Open(sp)
			}
		}
		c.StopIfFailed()
	}
	finish(w)
	w.Crash()
	if restarts {
		w.Open("")
	}
	c.StopIfFailed()
	c.NonTrivial(c.Index)
}

// finish completes the checkpoint in progress.
func finish(w *snapx.World) {
	m := w.Pending
	if m == nil {
		w.Create([]string{"op-0"}, []string{"sr-0"}, false)
		m = w.Pending
	}
	for _, o := range m.Ops {
		w.SendOp(w.OpAck(m.ID, o))
	}
	for _, s := range m.SRs {
		if w.Pending == m {
			w.SendSR(w.SrAck(m.ID, s))
		}
	}
	w.Quiet()
}

// race sends the acknowledgements of a checkpoint from many goroutines.
func race(c *vlib.Case) {
	r := c.R
	w := snapx.New(c, snapx.Atomic)
	w.Racing = true
	w.Open("")
	for round := 0; round < 5; round++ {
		ops, srs := names(r, "op-", 1+r.Intn(5)), names(r, "sr-", 1+r.Intn(5))
		w.Create(ops, srs, r.Intn(3) == 0)
		m := w.Pending
		if m == nil {
			break
		}
		var calls []func()
		for _, o := range ops {
			for n := 1 + r.Intn(3); n > 0; n-- {
				a := w.OpAck(m.ID, o)
				calls = append(calls, func() { w.SendOp(a) })
			}
		}
		for _, s := range srs {
			for n := 1 + r.Intn(3); n > 0; n-- {
				a := w.SrAck(m.ID, s)
				calls = append(calls, func() { w.SendSR(a) })
			}
		}
		for n := r.Intn(4); n > 0; n-- {
			a, b := w.SrAck(m.ID, "stranger"), w.OpAck(m.ID+uint64(r.Intn(2)), "stranger")
			calls = append(calls, func() { w.SendSR(a) }, func() { w.SendOp(b) })
		}
		calls = append(calls, w.Look, w.Look)
		r.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
		var wg sync.WaitGroup
		k := 2 + r.Intn(6)
		for g := 0; g < k; g++ {
			mine := slices.Clone(calls[g*len(calls)/k : (g+1)*len(calls)/k])
			pause := r.Intn(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, f := range mine {
					for i := 0; i < pause; i++ {
						runtime.Gosched()
					}
					f()
				}
			}()
		}
		wg.Wait()
		w.Quiet()
	}
	w.Crash()
	c.NonTrivial(c.Index)
}

// reissue restarts the job while a checkpoint is in progress.
func reissue(c *vlib.Case) {
	w := snapx.New(c, []string{"id", "reissued"})
	w.Open("")
	for i := 0; i < c.Index; i++ {
		finish(w)
	}
	w.Create([]string{"op-0"}, []string{"sr-0"}, false)
	w.Crash()
	w.Open("")
	w.Create([]string{"op-0"}, []string{"sr-0"}, false)
	c.NonTrivial(c.Index)
}
