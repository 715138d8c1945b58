// C02: barrier alignment gives every operator checkpoint a consistent cut.
package main

import (
	"fmt"
	"time"

	"verif/harness/opx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C02", Level: "exploration",
		Rule: "Real Operators (1-4, deployed through the real Assembly) receive from 1-6 runners the events, watermarks, barriers and end-of-input messages of generated scripts, every runner sending concurrently over one stream per operator, with random pauses, handler latencies, batch sizes 1-12 and batch time-outs. A reference handler records which events reached it; when an operator acknowledges checkpoint N, exactly the events each runner sent ahead of barrier N must have been processed, no timer may fire and no watermark be told that needs a message sent behind a barrier whose checkpoint isn't taken, and each acknowledged checkpoint is reopened from a copy of the files and its state and timers are compared with the reference at the cut. Up to 6 consecutive checkpoints and redeployments from one of them. A case is non-trivial when messages were sent behind a barrier of an open checkpoint.",
		Suites: []vlib.Suite{
			{Name: "aligned", Quick: 700, Thorough: 20000, Run: aligned},
			{Name: "serial", Quick: 600, Thorough: 20000, Run: serial},
		},
		Require: []string{"operator_checkpoints", "events_behind_barrier", "watermarks_behind_barrier", "checkpoints_reopened", "checkpoint_keys_compared", "checkpoint_timers_compared", "completed_sources"},
		Assume:  []string{"each runner's messages to one operator are delivered in order (C04)", "a checkpoint starts after its predecessor is complete (C12)"},
	})
}

var aspects = [][]string{opx.Cut, opx.Liveness, opx.Marks, opx.Events}

func aligned(c *vlib.Case) {
	r := c.R
	p := opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(12), TimerCache: uint64(1 + r.Intn(2000)), Aspects: aspects, Coarse: r.Intn(3) == 0}
	if r.Intn(2) == 0 {
		p.MaxMem = 200 + r.Intn(3000)
	}
	if r.Intn(3) > 0 {
		p.Latency = time.Duration(1+r.Intn(400)) * time.Microsecond
	}
	p.Delay = time.Duration(50+r.Intn(3000)) * time.Microsecond
	if r.Intn(5) == 0 {
		p.Delay = time.Hour
	}
	w := opx.New(c, p)
	defer w.Close()
	nops := 1 + r.Intn(4)
	var srs, names []string
	for i := 0; i < 1+r.Intn(6); i++ {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	for i := 0; i < nops; i++ {
		names = append(names, fmt.Sprint("op-", i))
	}
	nodes := w.Start(names...)
	d := w.Deploy(nodes, srs, nil)
	id := uint64(0)
	var last *opx.Ckpt
	rounds := 1 + r.Intn(2)
	for round := 0; round < rounds; round++ {
		var ids []uint64
		for i := 0; i < 1+r.Intn(4); i++ {
			id++
			ids = append(ids, id)
		}
		pace := time.Duration(0)
		if r.Intn(2) == 0 {
			pace = time.Duration(1+r.Intn(1000)) * time.Microsecond
		}
		ks := d.Conc(10+r.Intn(60), ids, pace, round == rounds-1)
		last = ks[len(ks)-1]
		for _, k := range ks {
			w.Contents(k)
		}
		c.StopIfFailed()
		if round == 0 && rounds > 1 {
			d = w.Deploy(nodes, srs, last)
		}
	}
	c.NonTrivial(c.Index)
}

func serial(c *vlib.Case) {
	r := c.R
	w := opx.New(c, opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(12), MaxMem: 200 + r.Intn(3000),
		TimerCache: uint64(1 + r.Intn(1000)), Aspects: aspects})
	defer w.Close()
	var srs, names []string
	for i := 0; i < 1+r.Intn(5); i++ {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		names = append(names, fmt.Sprint("op-", i))
	}
	nodes := w.Start(names...)
	d := w.Deploy(nodes, srs, nil)
	for id := uint64(1); id <= uint64(1+r.Intn(5)); id++ {
		for i := 0; i < r.Intn(30); i++ {
			switch r.Intn(6) {
			case 0:
				d.Advance()
			case 1:
				d.Flush()
			default:
				d.Tracked(srs[r.Intn(len(srs))])
			}
		}
		k := d.Checkpoint(id, r.Intn(4))
		w.Contents(k)
		c.StopIfFailed()
		if r.Intn(4) == 0 {
			d = w.Deploy(nodes, srs, k)
		}
	}
	c.NonTrivial(c.Index)
}
