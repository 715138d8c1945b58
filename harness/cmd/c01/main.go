// C01: exactly-once keyed state across worker failure and recovery.
package main

import (
	"fmt"
	"time"

	"verif/harness/clusterx"
	"verif/harness/opx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C01", Level: "exploration", Recycle: 40,
		Rule: "the state given with every event equals the one a failure-free run has after the preceding events of its split and key (counted per split, all entries compared), and so does the state in every published checkpoint, read back from its files when it is published, at exactly the checkpoint's positions; the positions name every split once; timers fire only once, when set, and all of them by the end; some operator's last sink record per key is that of the failure-free run; a deployment restores the newest checkpoint that was complete before it began; the run gets to a checkpoint of the whole input; operators whose sources all ended stop only after every event was handled",
		Suites: []vlib.Suite{
			{Name: "chaos", Quick: 700, Thorough: 20000, Run: chaos},
			{Name: "points", Quick: 2 * clusterx.Points(), Thorough: 60 * clusterx.Points(), Run: points},
			{Name: "steady", Quick: 100, Thorough: 3000, Run: steady},
			{Name: "end", Quick: 300, Thorough: 30000, Run: end},
		},
		Require: []string{"states_compared", "checkpoints_published", "checkpoint_states_compared", "operators_restored", "final_states_compared", "failures_at_messages", "killed_op", "killed_sr", "killed_job", "muted", "stopped_op", "timers_fired", "jobs_started", "ends_compared"},
		Assume:  []string{"The network and the workers' processes are modelled: a killed process answers nothing and its files don't change anymore, a message given up by its sender isn't handled after later ones. Job, operators, source runners, database and snapshot store are the real ones."},
	})
}

// end has operators see their sources end, with events in their batches.
func end(c *vlib.Case) {
	r := c.R
	p := opx.Params{Groups: 2 + r.Intn(12), MaxBatch: 1 + r.Intn(30), TimerCache: 1 << 20, Aspects: [][]string{opx.State, opx.Owner, opx.Liveness}}
	if r.Intn(2) == 0 {
		p.MaxMem = 200 + r.Intn(4000)
	}
	w := opx.New(c, p)
	defer w.Close()
	var srs, names []string
	for i := 1 + r.Intn(4); i > 0; i-- {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	for i := 1 + r.Intn(min(3, p.Groups)); i > 0; i-- {
		names = append(names, fmt.Sprint("op-", i))
	}
	d := w.Deploy(w.Start(names...), srs, nil)
	for i := r.Intn(40); i > 0; i-- {
		d.Tracked(srs[r.Intn(len(srs))])
	}
	if r.Intn(2) == 0 {
		d.Checkpoint(1, r.Intn(3))
	}
	d.End()
	c.NonTrivial("end", c.Index)
}

// points aims failures at every kind of message in turn.
func points(c *vlib.Case) {
	r := c.R
	w := clusterx.New(c, params(c))
	defer w.Close()
	run := w.Begin(1+r.Intn(4), r.Intn(2))
	defer run.End()
	for i := 1 + r.Intn(2); i > 0; i-- {
		run.IncidentAt(c.Index, r.Intn(3) == 0)
		c.StopIfFailed()
	}
	run.Finish()
}

// steady has no failures.
func steady(c *vlib.Case) {
	p := params(c)
	p.ReadErrs = c.R.Intn(2) == 0
	p.Records *= 3
	w := clusterx.New(c, p)
	defer w.Close()
	run := w.Begin(1+c.R.Intn(4), c.R.Intn(2))
	defer run.End()
	run.Finish()
}

func chaos(c *vlib.Case) {
	r := c.R
	w := clusterx.New(c, params(c))
	defer w.Close()
	run := w.Begin(1+r.Intn(4), r.Intn(2))
	defer run.End()
	for i := r.Intn(5); i > 0; i-- {
		run.Incident(true)
		c.StopIfFailed()
	}
	run.Finish()
}

func params(c *vlib.Case) clusterx.Params {
	r := c.R
	p := clusterx.Params{
		Groups: 1 + r.Intn(16), Splits: 1 + r.Intn(6), Records: 20 + r.Intn(80), Keys: 1 + r.Intn(10), Timers: r.Intn(2) == 0,
		MaxBatch: 1 + r.Intn(12), Reads: 1 + r.Intn(6), Pause: time.Duration(r.Intn(3000)) * time.Microsecond,
		Refuse: r.Intn(3) == 0, EOI: r.Intn(4) == 0, ReadErrs: false,
		Aspects: [][]string{clusterx.State, clusterx.Source, clusterx.Progress},
	}
	if p.Timers && p.Splits < 4 { // so that every source runner gets a watermark
		p.Splits = 4 + r.Intn(3)
	}
	if r.Intn(4) > 0 {
		p.MaxMem = 200 + r.Intn(3000)
		p.Big = r.Intn(200)
	}
	if r.Intn(2) == 0 {
		p.Latency = time.Duration(r.Intn(1500)) * time.Microsecond
	}
	if r.Intn(2) == 0 {
		p.Net = time.Duration(r.Intn(1000)) * time.Microsecond
	}
	if r.Intn(2) == 0 {
		p.Acks = time.Duration(r.Intn(10)) * time.Millisecond
	}
	return p
}
