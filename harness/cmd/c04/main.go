// C04: delivery by the real SourceRunner, observed at its operators.
package main

import (
	"fmt"
	"time"

	"verif/harness/srx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C04", Level: "exploration",
		Rule: "real SourceRunner (deployed through HandleDeploy, splits through HandleAssignSplits, barriers through HandleStartCheckpoint) reading generated splits, keying through a handler with random per-batch latencies, sending to recording operators with random latencies. Sizes 0..50, delays 0..4 ms, 1-5 operators, 1-4 splits, records mapping to 0-3 keyed events. Oracles over the recorded operator streams: every keyed event exactly once and unaltered, split/key order, barriers exactly once, in order and behind all records read before they were requested, every watermark at one point of the read order in all streams, batches to an operator never concurrent. burst: size flushes race with time-outs around the delay. faults: a failed delivery or keying is followed by nothing. Non-trivial: keying completed out of order or more than one batch per operator",
		Suites: []vlib.Suite{
			{Name: "deliver", Quick: 500, Thorough: 10000, Run: deliver},
			{Name: "burst", Quick: 150, Thorough: 4000, Run: burst},
			{Name: "faults", Quick: 120, Thorough: 2000, Run: faults},
		},
		Require: []string{"keyed_events", "barriers_checked", "wm_with_events", "out_of_order_keying", "failed_deliveries"},
	})
}

func all(in *srx.Input) map[int]int {
	m := map[int]int{}
	for s := range in.Splits {
		m[s] = 0
	}
	return m
}

func run(c *vlib.Case, in *srx.Input, k srx.Knobs, bounded bool, pause func(i int) time.Duration, n int) {
	r := c.R
	w := srx.New(c, in, k, srx.Delivery)
	nOps := 1 + r.Intn(5)
	groups := []int{1, 2, 3, 7, 16, 256, 1000}[r.Intn(7)]
	d := w.Deploy(nOps, groups)
	splits := all(in)
	late := map[int]int{}
	for s := range in.Splits {
		if r.Intn(4) == 0 {
			late[s] = 0
			delete(splits, s)
		}
	}
	w.Assign(d, splits)
	for i := 1; i <= n; i++ {
		time.Sleep(pause(i))
		if r.Intn(2) == 0 && len(late) > 0 {
			w.Assign(d, late)
			late = nil
		}
		w.Checkpoint(uint64(i))
	}
	if len(late) > 0 {
		w.Assign(d, late)
	}
	patience := 15 * time.Second
	if !bounded {
		patience = 40 * time.Millisecond
	}
	ok := w.WaitDelivered(d, n, patience)
	time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	if err := w.Close(); err != nil {
		c.Report("stopped", "source runner failed: %v", err)
	}
	w.Check(d, bounded)
	if bounded && !ok {
		got, b := d.Delivered()
		c.Report("stuck", "only %d of %d keyed events and %d of %d barriers arrived", got, w.Expected(d), b, n*nOps)
	}
	c.Count("out_of_order_keying", w.Handler.OutOfOrder)
	c.Count("barriers_checked", n*nOps)
	c.Count("keying_batches", w.Handler.Batches)
	c.Sample("ops=%d %+v op0: %v", nOps, k, fmt.Sprint(d.Ops[0].Snapshot()))
	if w.Handler.OutOfOrder > 0 || d.Ops[0].Batches > 1 {
		c.NonTrivial(w.Handler.Batches, w.Handler.OutOfOrder, fmt.Sprint(d.Ops[0].Snapshot()))
	}
}

func deliver(c *vlib.Case) {
	r := c.R
	in := srx.GenInput(r, 1+r.Intn(4), 30+r.Intn(150), srx.Keys(r, 1+r.Intn(30)), srx.Shape(r.Intn(4)))
	k, bounded := srx.RandomKnobs(r)
	srx.SetWatermarkInterval(func() time.Duration { return 2 * time.Millisecond })
	run(c, in, k, bounded, func(int) time.Duration { return time.Duration(r.Intn(6000)) * time.Microsecond }, r.Intn(5))
}

// burst: reads come in bursts spaced like the batch delay, so that size and time-out flushers
// meet; keying latencies vary more than the delay.
func burst(c *vlib.Case) {
	r := c.R
	in := srx.GenInput(r, 1+r.Intn(2), 120, srx.Keys(r, 1+r.Intn(3)), srx.Ordered)
	var k srx.Knobs
	k.Batching.MaxSize = 2 + r.Intn(6)
	k.Batching.MaxDelay = time.Duration(100+r.Intn(1200)) * time.Microsecond
	k.KeyMax = 3 * k.Batching.MaxDelay
	k.OpMax = time.Duration(1+r.Intn(300)) * time.Microsecond
	k.Read.MaxBatch = k.Batching.MaxSize + r.Intn(3)
	k.Read.Pause = 2 * k.Batching.MaxDelay
	srx.SetWatermarkInterval(func() time.Duration { return k.Batching.MaxDelay })
	srx.DelayFlush(r.Int63(), k.Batching.MaxDelay)
	defer srx.DelayFlush(0, 0)
	run(c, in, k, true, func(int) time.Duration { return time.Duration(r.Intn(4)) * k.Batching.MaxDelay }, r.Intn(6))
}

// faults: one operator fails a batch (or the keying fails): nothing may be delivered to it afterwards.
func faults(c *vlib.Case) {
	r := c.R
	in := srx.GenInput(r, 1+r.Intn(3), 60+r.Intn(100), srx.Keys(r, 1+r.Intn(10)), srx.Ordered)
	k, _ := srx.RandomKnobs(r)
	if k.Batching.MaxDelay == 0 {
		k.Batching.MaxDelay = time.Millisecond
	}
	srx.SetWatermarkInterval(func() time.Duration { return 2 * time.Millisecond })
	w := srx.New(c, in, k, srx.Delivery)
	d := w.Deploy(1+r.Intn(3), 16)
	keying := r.Intn(3) == 0
	if keying {
		w.Handler.FailAt = 1 + r.Intn(8)
	} else {
		d.Ops[0].FailAt = 1 + r.Intn(10)
	}
	w.Assign(d, all(in))
	n := r.Intn(4)
	for i := 1; i <= n; i++ {
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		w.Checkpoint(uint64(i))
	}
	failed := w.WaitStopped(3 * time.Second)
	err := w.Close()
	if keying && !failed && w.Handler.Failed > 0 || !keying && !failed && d.Ops[0].Batches >= d.Ops[0].FailAt {
		c.Report("stuck", "the source runner neither delivered nor failed after a failure (%v)", err)
	}
	w.Check(d, false)
	if failed {
		c.Count("failed_deliveries", 1)
		c.NonTrivial(fmt.Sprint(d.Ops[0].Snapshot()))
	}
}
