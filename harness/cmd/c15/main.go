// C15: the job runs only on a full, live assembly, and checkpointing resumes.
package main

import (
	"context"
	"fmt"
	"time"

	"verif/harness/clusterx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C15", Level: "exploration", Recycle: 40,
		Rule: "membership (real job, fake nodes, model of who is registered and live): every deployment has exactly the configured number of distinct operators and source runners, named alike to all; once the job has processed that a member deregistered or expired, no call of that deployment, nor of a missing node, is received with a live context; splits are assigned and checkpoints started only when all members are deployed, and only in the latest deployment; all parts of a deployment restore the same checkpoint, the newest published one; a checkpoint id is started in one deployment only and published with exactly its members, splits and splitter; every registration and deregistration is processed within 15 s whatever hangs; once enough nodes live and answer, all members are deployed within 15 s and a new checkpoint is published within 15 s. cluster (real job and workers over a faulty network): after every failure sequence the job reads its whole input and publishes a checkpoint of it, deployments restore the newest complete checkpoint, workers don't end by themselves",
		Suites: []vlib.Suite{
			{Name: "membership", Quick: 6000, Thorough: 200000, Run: membership},
			{Name: "cluster", Quick: 350, Thorough: 12000, Run: cluster},
			{Name: "points", Quick: clusterx.Points(), Thorough: 40 * clusterx.Points(), Run: points},
		},
		Require: []string{"deployments", "assemblies_lost", "lost_while_starting", "lost_during_checkpoint", "expired", "calls_deploy", "calls_assign", "calls_checkpoint", "calls_hung", "calls_failed", "late_ticks", "stale_acks", "recoveries", "checkpoints_after_recovery", "checkpoints_published", "jobs_started", "failures_at_messages", "killed_op", "killed_sr", "muted", "stopped_op"},
		Assume:  []string{"The network and the workers' processes are modelled in the suites cluster and points: a killed process answers nothing, a message given up by its sender isn't handled after later ones."},
	})
}

func params(c *vlib.Case) clusterx.Params {
	r := c.R
	p := clusterx.Params{
		Groups: 1 + r.Intn(8), Splits: 1 + r.Intn(6), Records: 20 + r.Intn(60), Keys: 1 + r.Intn(6),
		MaxBatch: 1 + r.Intn(12), Reads: 1 + r.Intn(6), Pause: time.Duration(r.Intn(3000)) * time.Microsecond,
		Refuse: r.Intn(2) == 0, EOI: r.Intn(4) == 0,
		Aspects: [][]string{clusterx.Recovery},
	}
	if r.Intn(2) == 0 {
		p.Net = time.Duration(r.Intn(1000)) * time.Microsecond
	}
	if r.Intn(2) == 0 {
		p.Acks = time.Duration(r.Intn(10)) * time.Millisecond
	}
	return p
}

func cluster(c *vlib.Case) {
	r := c.R
	w := clusterx.New(c, params(c))
	defer w.Close()
	run := w.Begin(1+r.Intn(4), r.Intn(3))
	defer run.End()
	for i := 1 + r.Intn(5); i > 0; i-- {
		run.Incident(true)
		c.StopIfFailed()
	}
	run.Finish()
}

func points(c *vlib.Case) {
	r := c.R
	w := clusterx.New(c, params(c))
	defer w.Close()
	run := w.Begin(1+r.Intn(4), r.Intn(2))
	defer run.End()
	run.IncidentAt(c.Index, r.Intn(3) == 0)
	c.StopIfFailed()
	run.Finish()
}

var calls = []string{"deploy", "assign", "checkpoint", "retain"}

func membership(c *vlib.Case) {
	r := c.R
	w := newWorld(c)
	defer w.end()
	w.startJob(1 + r.Intn(3))
	for _, k := range []string{"op", "sr"} {
		for i := r.Intn(w.proc.workers + 2); i > 0; i-- {
			w.register(w.add(k))
		}
	}
	phases := 1 + r.Intn(4)
	for i := 0; i < phases; i++ {
		for s := 2 + r.Intn(25); s > 0; s-- {
			w.step()
			c.StopIfFailed()
		}
		w.heal()
		c.StopIfFailed()
	}
}

func (w *world) end() {
	w.proc.dead.Store(true)
	w.proc.loc.Crash()
	w.wakeAll()
	w.releaseTick()
	w.proc.job.Close()
}

func (w *world) some(kind string) *node {
	ns := w.all(kind)
	if len(ns) == 0 {
		return w.add([]string{"op", "sr"}[w.c.R.Intn(2)])
	}
	return ns[w.c.R.Intn(len(ns))]
}

// member picks a node of the latest deployment.
func (w *world) member() *node {
	w.mu.Lock()
	var ms []*node
	if len(w.deps) > 0 {
		d := w.deps[len(w.deps)-1]
		for _, id := range append(append([]string{}, d.srs...), d.ops...) {
			if n := w.nodes[id]; !n.gone {
				ms = append(ms, n)
			}
		}
	}
	w.mu.Unlock()
	if len(ms) == 0 || w.c.R.Intn(4) == 0 {
		return w.some("")
	}
	return ms[w.c.R.Intn(len(ms))]
}

func (w *world) set(n *node, call string, mode int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n.mode[call] = mode
	n.fail[call] = 1 + w.c.R.Intn(3)
	if mode != hangs {
		close(n.wake)
		n.wake = make(chan struct{})
	}
}

func (w *world) step() {
	r, c := w.c.R, w.c
	switch k := r.Intn(24); {
	case k < 3:
		n := w.add([]string{"op", "sr"}[r.Intn(2)])
		c.Trace("%s registers", n.id)
		w.register(n)
	case k < 5: // heartbeats, in any order with the next steps
		w.beats()
	case k < 7: // one says goodbye, and may be back later
		n := w.member()
		c.Trace("%s deregisters", n.id)
		n.silent = true
		w.deregister(n)
		if r.Intn(2) == 0 {
			w.gone(n)
		}
	case k < 9: // one dies
		n := w.member()
		mode := []int{fails, hangs}[r.Intn(2)]
		c.Trace("%s dies, its calls %s", n.id, []string{"", "fail", "hang"}[mode])
		n.silent = true
		for _, call := range calls {
			w.set(n, call, mode)
			w.mu.Lock()
			n.fail[call] = 1 << 30
			w.mu.Unlock()
		}
		w.gone(n)
	case k < 11: // one is slow or fails for a while
		n, call, mode := w.member(), calls[r.Intn(len(calls))], r.Intn(3)
		c.Trace("%s: %s %s", n.id, call, []string{"works", "fails", "hangs"}[mode])
		w.set(n, call, mode)
	case k < 12:
		n := w.member()
		n.silent = !n.silent
		c.Trace("%s is silent: %v", n.id, n.silent)
	case k < 15:
		d := time.Duration(r.Intn(int(w.deadline) * 5 / 4))
		if r.Intn(2) == 0 {
			d /= 4
		}
		c.Trace("%v pass", d)
		w.advance(d)
		if r.Intn(3) > 0 {
			w.beats()
		}
		w.flush()
	case k < 18:
		w.holdTick.Store(r.Intn(4) == 0)
		c.Trace("tick, held: %v", w.holdTick.Load())
		w.proc.permits.Store(1)
		time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
	case k < 21:
		w.deliver(1+r.Intn(8), true)
	case k < 22:
		switch r.Intn(4) {
		case 0:
			w.releaseTick()
		case 1:
			w.wakeAll()
		case 2:
			p := w.proc
			ctx, cancel := context.WithCancel(context.Background())
			if r.Intn(2) == 0 {
				cancel()
			}
			w.busy.Add(1)
			go func() {
				defer w.busy.Done()
				defer cancel()
				id, err := p.job.HandleCreateSavepoint(ctx)
				_, _ = id, err
				c.Count("savepoints_requested", 1)
			}()
		default: // a splitter, possibly of a former deployment
			w.mu.Lock()
			var s *splitter
			if n := len(w.deps); n > 1 {
				s = w.deps[r.Intn(n-1)].spl
			}
			w.mu.Unlock()
			if s != nil {
				c.Count("late_assignments", 1)
				w.busy.Add(1)
				go func() { defer w.busy.Done(); s.late() }()
			}
		}
	case k < 23:
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	default:
		if r.Intn(4) == 0 {
			w.startJob(1 + r.Intn(3))
			w.beats()
		} else {
			w.flush()
		}
	}
}

func (w *world) gone(n *node) {
	w.mu.Lock()
	n.gone = true
	w.mu.Unlock()
}

// deliver acknowledges checkpoints.
func (w *world) deliver(n int, any bool) {
	p := w.proc
	for ; n > 0; n-- {
		w.mu.Lock()
		if len(w.acks) == 0 {
			w.mu.Unlock()
			return
		}
		i := w.c.R.Intn(len(w.acks))
		a := w.acks[i]
		w.acks[i].sent++
		if !any || w.c.R.Intn(5) > 0 { // else it's sent again
			w.acks = append(w.acks[:i:i], w.acks[i+1:]...)
		}
		stale := a.dep != w.deps[len(w.deps)-1] || a.dep.lost != ""
		w.mu.Unlock()
		if stale {
			w.c.Count("stale_acks", 1)
		}
		w.within("an acknowledgement", func() {
			if a.op != nil {
				p.job.HandleOperatorCheckpointComplete(context.Background(), a.op)
			} else {
				p.job.HandleSourceRunnerCheckpointComplete(context.Background(), a.sr)
			}
		})
	}
}

// heal brings in enough nodes that live and answer, and expects the job to run again.
func (w *world) heal() {
	c := w.c
	w.mu.Lock()
	for _, n := range w.nodes {
		if n.gone {
			continue
		}
		n.silent = false
		n.mode = map[string]int{}
	}
	before := len(w.deps)
	w.mu.Unlock()
	w.wakeAll()
	w.releaseTick()
	if c.R.Intn(3) > 0 { // the dead ones expire
		w.beats()
		w.advance(w.deadline / 2)
		w.beats()
		w.advance(w.deadline/2 + time.Second)
	} else {
		w.advance(w.deadline + time.Second)
	}
	for _, k := range []string{"op", "sr"} {
		for n := len(w.all(k)); n < w.proc.workers; n++ {
			w.add(k)
		}
	}
	w.beats()
	w.flush()
	c.Trace("all is well")
	wait := func(what string, done func() bool) {
		end := time.Now().Add(patience)
		for !done() {
			c.StopIfFailed()
			if time.Now().After(end) {
				c.Fail("stuck", "%s for %v although %d operators and %d source runners live and answer: %s", what, patience, len(w.all("op")), len(w.all("sr")), w.state())
			}
			time.Sleep(200 * time.Microsecond)
			w.beats()
		}
	}
	var d *dep
	wait("not all members of an assembly are deployed", func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.deps) == 0 {
			return false
		}
		d = w.deps[len(w.deps)-1]
		return d.lost == "" && d.proc == w.proc && len(d.srDone) == len(d.srs) && len(d.opDone) == w.proc.workers && len(d.given) == len(d.srs)
	})
	if before > 0 {
		c.Count("recoveries", 1)
	}
	first := w.published()
	wait("no checkpoint is completed", func() bool {
		w.proc.permits.Store(1)
		w.deliver(100, false)
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.newest > first
	})
	c.Count("checkpoints_after_recovery", 1)
	c.NonTrivial("membership", c.Index)
	c.Trace("deployment %d works, checkpoint %d", d.n, w.newest)
}

func (w *world) state() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.deps) == 0 {
		return "nothing was ever deployed"
	}
	d := w.deps[len(w.deps)-1]
	return fmt.Sprintf("deployment %d of job %d (now %d) with %v and %v, lost %q; deployed %v %v, given splits %v, begun checkpoints %v, published %d, %d acknowledgements waiting", d.n, d.proc.n, w.proc.n, d.ops, d.srs, d.lost, keys(d.opDone), keys(d.srDone), keys(d.given), len(d.begun), w.newest, len(w.acks))
}
