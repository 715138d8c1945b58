// C11: watermarks are monotone; operators act on the minimum of their upstreams.
package main

import (
	"fmt"
	"time"

	"reduction.dev/reduction/workers/wmark"
	"verif/harness/opx"
	"verif/harness/srx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C11", Level: "exploration",
		Rule: "runner: real SourceRunners with a watermark interval of 0.3-3 ms read splits whose timestamps are ordered, jittered, reversed or wild (before 1970 to 2096) and send to recording operators of random latency; every watermark must be the same for all operators, never below its predecessor, below the largest timestamp among the events ahead of it, and at most a second below it. marker: the Watermarker over generated timestamps. operators: real Operators with 1-6 runners sending concurrently; every watermark told to the handler must lie between the minima of what the runners' sends have certainly and possibly delivered (runners that haven't reported counting as the epoch) and no fired timer may exceed it; sequential: the same with one message at a time, where both minima coincide, redeployments included, and due timers must have fired. Non-trivial: watermarks were observed with events ahead of them.",
		Suites: []vlib.Suite{
			{Name: "runner", Quick: 350, Thorough: 10000, Run: runner},
			{Name: "marker", Quick: 2000, Thorough: 50000, Run: marker},
			{Name: "operators", Quick: 600, Thorough: 20000, Run: operators},
			{Name: "sequential", Quick: 1500, Thorough: 40000, Run: sequential},
		},
		Require: []string{"wm_with_events", "watermarks", "batches", "timers_fired", "due_checks", "marker_steps", "deployments", "caught_up"},
		Assume:  []string{"the allowed lag behind the largest timestamp is one second (the code's is one nanosecond)"},
	})
}

func runner(c *vlib.Case) {
	r := c.R
	in := srx.GenInput(r, 1+r.Intn(4), 30+r.Intn(150), srx.Keys(r, 1+r.Intn(30)), srx.Shape(r.Intn(4)))
	k, bounded := srx.RandomKnobs(r)
	if !bounded {
		k.Batching.MaxDelay = time.Millisecond
	}
	if r.Intn(2) == 0 {
		k.Read.Pause = time.Duration(1+r.Intn(800)) * time.Microsecond
	}
	iv := time.Duration(300+r.Intn(2700)) * time.Microsecond
	srx.SetWatermarkInterval(func() time.Duration { return iv })
	w := srx.New(c, in, k, srx.Watermarks)
	d := w.Deploy(1+r.Intn(4), 16)
	splits := map[int]int{}
	for s := range in.Splits {
		splits[s] = 0
	}
	w.Assign(d, splits)
	delivered := w.WaitDelivered(d, 0, 10*time.Second)
	if delivered && w.Expected(d) > 0 {
		// event time must catch up with what was forwarded
		var maxTS time.Time
		any := false
		for _, s := range in.Splits {
			for _, rec := range s {
				for _, e := range rec {
					if !any || e.TS.After(maxTS) {
						maxTS, any = e.TS, true
					}
				}
			}
		}
		end := time.Now().Add(15 * time.Second)
		for i, op := range d.Ops {
			for {
				var last *time.Time
				for _, e := range op.Snapshot() {
					if e.WM != nil {
						last = e.WM
					}
				}
				if last != nil && !last.Before(maxTS.Add(-time.Second)) {
					c.Count("caught_up", 1)
					break
				}
				if time.Now().After(end) {
					c.Report("wm-stuck", "operator %d: all events up to %v were forwarded but 15s later its last watermark is %v", i, maxTS, last)
					break
				}
				time.Sleep(200 * time.Microsecond)
			}
		}
	}
	w.Close()
	w.Check(d, false)
	c.NonTrivial(fmt.Sprint(d.Ops[0].Snapshot()))
}

func marker(c *vlib.Case) {
	r := c.R
	var m wmark.Watermarker
	var maxTS, prev time.Time
	any := false
	for i := 0; i < 1+r.Intn(60); i++ {
		switch r.Intn(3) {
		case 0:
			wm := m.CurrentWatermark()
			if i > 0 && wm.Before(prev) {
				c.Fail("wm-regress", "watermark %v after %v", wm, prev)
			}
			prev = wm
			if any && !wm.Before(maxTS) {
				c.Fail("wm-reached", "watermark %v, largest timestamp %v", wm, maxTS)
			}
			if any && wm.Before(maxTS.Add(-time.Second)) {
				c.Fail("wm-lags", "watermark %v, largest timestamp %v", wm, maxTS)
			}
		default:
			t := time.Unix(r.Int63n(4_000_000_000)-1_000_000_000, r.Int63n(1e9))
			if any && r.Intn(2) == 0 {
				t = maxTS.Add(time.Duration(r.Intn(2_000_000_000)) - time.Second)
			}
			if !any || t.After(maxTS) {
				maxTS = t
			}
			any = true
			m.AdvanceTime(t)
		}
		c.Count("marker_steps", 1)
	}
	if any {
		c.NonTrivial(c.Index)
	}
}

var aspects = [][]string{opx.Marks, opx.Liveness}

func params(c *vlib.Case) opx.Params {
	r := c.R
	return opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(12), TimerCache: uint64(1 + r.Intn(2000)), Aspects: aspects, Coarse: r.Intn(3) == 0}
}

func names(p string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint(p, i))
	}
	return
}

func operators(c *vlib.Case) {
	r := c.R
	p := params(c)
	if r.Intn(2) == 0 {
		p.Latency = time.Duration(1+r.Intn(300)) * time.Microsecond
	}
	p.Delay = time.Duration(50+r.Intn(2000)) * time.Microsecond
	w := opx.New(c, p)
	defer w.Close()
	nodes := w.Start(names("op-", 1+r.Intn(3))...)
	srs := names("sr-", 1+r.Intn(6))
	d := w.Deploy(nodes, srs, nil)
	ids := []uint64{1, 2, 3}[:r.Intn(3)+1]
	ks := d.Conc(20+r.Intn(60), ids, time.Duration(r.Intn(500))*time.Microsecond, true)
	c.StopIfFailed()
	if r.Intn(2) == 0 {
		d = w.Deploy(nodes, srs, ks[len(ks)-1])
		d.Conc(20+r.Intn(30), nil, time.Duration(r.Intn(500))*time.Microsecond, true)
	}
	d.Due()
	c.NonTrivial(c.Index)
}

func sequential(c *vlib.Case) {
	r := c.R
	w := opx.New(c, params(c))
	defer w.Close()
	nodes := w.Start(names("op-", 1+r.Intn(3))...)
	srs := names("sr-", 1+r.Intn(6))
	d := w.Deploy(nodes, srs, nil)
	id := uint64(0)
	for gen := 0; gen < 1+r.Intn(3); gen++ {
		for i := 0; i < 20+r.Intn(60); i++ {
			switch r.Intn(6) {
			case 0, 1:
				d.Advance()
			case 2:
				d.Flush()
				d.Due()
			default:
				d.Tracked(srs[r.Intn(len(srs))])
			}
			c.StopIfFailed()
		}
		id++
		k := d.Checkpoint(id, r.Intn(3))
		if r.Intn(2) == 0 {
			srs = names(fmt.Sprint("sr", gen, "-"), 1+r.Intn(6))
		}
		d = w.Deploy(nodes, srs, k)
	}
	c.NonTrivial(c.Index)
}
