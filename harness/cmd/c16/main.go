// C16: source positions match the barrier cut; every split has exactly one reader.
package main

import (
	"fmt"
	"strings"
	"time"

	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C16", Level: "exploration",
		Rule: "cut: a real source runner is deployed again and again from positions it reported; of everything read, exactly the records below a reported position precede that checkpoint's barrier at every operator, and every assigned split is reported once. kinesis, embedded, httpapi: a real job with 1-4 workers, real snapshot store and splitter and real source runners with the connector's default readers (against an HTTP double of the service: shards that split and merge, paged listings, expired iterators, throttling, small and empty batches) send to recording operators; nodes are lost, checkpoints cut off, the job restarts from its files with another number of workers. Cuts are computed from what preceded the barriers at the operators: in every deployment a split's first record is the one after the cut of the restored checkpoint and the next ones are contiguous, no split is assigned or read by two runners, no child before its parents were read, every split is read to its end, none that doesn't exist. probes: published checkpoints are restored with a splitter and readers for 1-5 runners and judged alike. Non-trivial: every completed case.",
		Suites: []vlib.Suite{
			{Name: "cut", Quick: 400, Thorough: 20000, Run: cut},
			{Name: "kinesis", Quick: 120, Thorough: 6000, Run: func(c *vlib.Case) { run(c, newKinesis(c)) }},
			{Name: "embedded", Quick: 40, Thorough: 1500, Run: func(c *vlib.Case) { run(c, newEmbedded(c)) }},
			{Name: "httpapi", Quick: 30, Thorough: 1000, Run: func(c *vlib.Case) { run(c, newWeb(c)) }},
		},
		Require: []string{"restores", "splits_resumed", "children_assigned", "probes", "restarts_from_positions", "cuts", "job_restarts", "nodes_lost", "restores_by_other_runners", "shards_split", "shards_merged", "iterators_expired", "reads_throttled", "splits_finished"},
		Assume:  []string{"the Kafka reader isn't run: there is no broker here", "an RPC that its client gave up isn't handled later by its server", "Kinesis keeps the records that weren't read"},
	})
}

// patience is how long nothing may happen while there is something to read.
const patience = 15 * time.Second

func run(c *vlib.Case, src origin) {
	r := c.R
	defer src.close()
	w := newWorld(c, src)
	w.startJob(1 + r.Intn(4))
	defer w.close()
	var steps = 10 + r.Intn(50)
	for i := 0; i < steps; i++ {
		switch x := r.Intn(20); {
		case x < 8:
			if s := src.step(r); s != "" {
				c.Trace("%s", s)
			}
		case x < 14:
			w.proc.permits.Store(1)
		case x == 14:
			w.await()
		case x == 15 && r.Intn(2) == 0:
			w.await()
			w.restart()
		case x == 16:
			if r.Intn(2) == 0 {
				w.await()
			}
			w.incident()
		default:
			w.wait(3 * time.Millisecond)
		}
		w.wait(2 * time.Millisecond)
		c.StopIfFailed()
	}
	w.drain()
	w.await()
	w.close()
	w.probes()
	c.NonTrivial(c.Index)
}

// await starts a checkpoint and waits until one is published.
func (w *world) await() {
	n := w.published()
	for i := 0; i < 400 && w.published() == n; i++ {
		if i%50 == 0 {
			w.proc.permits.Store(1)
		}
		time.Sleep(500 * time.Microsecond)
	}
}

func (w *world) restart() {
	n := 1 + w.c.R.Intn(4)
	w.c.Count("job_restarts", 1)
	w.startJob(n)
}

func (w *world) incident() {
	r := w.c.R
	w.mu.Lock()
	d := w.deps
	w.mu.Unlock()
	if len(d) == 0 {
		return
	}
	last := d[len(d)-1]
	w.mu.Lock()
	members := append(append([]string{}, last.srs...), last.ops...)
	w.mu.Unlock()
	id := members[r.Intn(len(members))]
	w.c.Trace("%s is lost", id)
	w.c.Count("nodes_lost", 1)
	w.lose(id)
	w.mu.Lock()
	ops, srs := len(w.ops), len(w.srs)
	w.mu.Unlock()
	for ; ops < w.proc.workers; ops++ {
		w.addOp()
	}
	for ; srs < w.proc.workers; srs++ {
		w.addSR()
	}
}

// drain waits until everything was read.
func (w *world) drain() {
	var missing []string
	end := time.Now().Add(patience)
	var d *dep
	var seen int64
	for time.Now().Before(end) {
		w.c.StopIfFailed()
		missing = nil
		if n := w.records.Load(); n != seen {
			seen, end = n, time.Now().Add(patience)
		}
		all := w.src.splits()
		w.mu.Lock()
		d = w.deps[len(w.deps)-1]
		for _, s := range all {
			if !s.endless && d.pos[s.id] < s.n || s.endless && d.reader[s.id] == "" {
				missing = append(missing, fmt.Sprintf("%s %d/%d of %q", s.id, d.pos[s.id], s.n, d.owner[s.id]))
			}
		}
		w.mu.Unlock()
		if len(missing) == 0 {
			w.c.Count("drained", 1)
			return
		}
		time.Sleep(time.Millisecond)
	}
	w.c.Fail("unread", "in deployment %d, which restores checkpoint %d, splits aren't read: %s", d.n, d.from, strings.Join(missing, ", "))
}
