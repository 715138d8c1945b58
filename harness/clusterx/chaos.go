package clusterx

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/harness/dkvx"
)

// kinds of messages a failure can coincide with, and how many of them pass in a short run.
var points = []struct {
	kind string
	max  int
}{
	{"events", 60}, {"handled", 60}, {"op-deploy", 5}, {"sr-deploy", 5}, {"assign", 5}, {"start-ckpt", 8}, {"barrier", 12}, {"sr-ack", 6}, {"op-ack", 6},
	{"retain", 4}, {"needs", 4}, {"register", 30}, {"store-write", 3}, {"store-remove", 2}, {"save-sst", 8}, {"save-wal", 8}, {"save-checkpoints", 5}, {"deregister", 1},
}

// Runner drives a world.
type Runner struct {
	W    *World
	stop chan struct{}
	wg   sync.WaitGroup
	fast time.Duration // longest interval between checkpoints
}

// Begin starts the job, its workers, heartbeats and checkpoints.
func (w *World) Begin(workers, standby int) *Runner {
	r := &Runner{W: w, stop: make(chan struct{}), fast: time.Duration(5+w.draw(40)) * time.Millisecond}
	if w.draw(2) == 0 {
		w.StartJob(workers)
		r.top(workers + standby)
	} else {
		r.top(workers + standby)
		w.StartJob(workers)
	}
	r.wg.Add(2)
	go func() {
		defer r.wg.Done()
		for {
			select {
			case <-r.stop:
				return
			case <-time.After(2 * time.Millisecond):
				w.Beat()
			}
		}
	}()
	go func() {
		defer r.wg.Done()
		for {
			select {
			case <-r.stop:
				return
			case <-time.After(time.Duration(1+w.draw(int(r.fast/time.Millisecond))) * time.Millisecond):
				w.Tick()
			}
		}
	}()
	return r
}

// End stops what Begin started.
func (r *Runner) End() {
	close(r.stop)
	r.wg.Wait()
}

// top starts workers until there are n of each kind.
func (r *Runner) top(n int) {
	for i := len(r.W.Alive("op")); i < n; i++ {
		r.W.StartOp()
	}
	for i := len(r.W.Alive("sr")); i < n; i++ {
		r.W.StartSR()
	}
}

// victims picks workers.
func (r *Runner) victims() (out []*Proc) {
	w := r.W
	ops, srs := w.Alive("op"), w.Alive("sr")
	all := append(append([]*Proc{}, ops...), srs...)
	if len(all) == 0 {
		return nil
	}
	switch w.draw(6) {
	case 0: // everything
		return all
	case 1, 2: // some operator
		if len(ops) > 0 {
			return []*Proc{ops[w.draw(len(ops))]}
		}
	case 3: // some source runner
		if len(srs) > 0 {
			return []*Proc{srs[w.draw(len(srs))]}
		}
	}
	for _, p := range all {
		if w.draw(3) == 0 {
			out = append(out, p)
		}
	}
	return out
}

// Incident lets something fail, at a message or after a while, and brings in what is needed
// to go on.
func (r *Runner) Incident(rescale bool) {
	r.incident(rescale, r.W.draw(10), -1)
}

// Points is the number of places that IncidentAt can aim a failure at.
func Points() int { return len(points) * 2 * 4 }

// IncidentAt is an incident of a certain kind at a certain message.
func (r *Runner) IncidentAt(i int, rescale bool) {
	r.incident(rescale, []int{0, 6, 7, 8}[i/2/len(points)%4], i%(2*len(points)))
}

func (r *Runner) incident(rescale bool, kind, at int) {
	w := r.W
	newJob := 0
	standby := w.draw(3) == 0
	if standby {
		r.top(w.P.Workers + 1 + w.draw(2))
	}
	act := func() {
		switch {
		case kind < 6:
			for _, p := range r.victims() {
				w.Kill(p)
			}
		case kind == 6: // a shutdown
			for _, p := range r.victims() {
				w.Stop(p)
			}
		case kind == 7: // a partition: no heartbeats
			for _, p := range r.victims() {
				p.muted.Store(true)
				w.C.Count("muted", 1)
				w.C.Trace("%s stops sending heartbeats", p.ID)
			}
		default:
			newJob = w.P.Workers
			if rescale && w.draw(2) == 0 {
				newJob = 1 + w.draw(4)
			}
			w.Kill(w.curJob())
			if w.draw(2) == 0 {
				for _, p := range r.victims() {
					w.Kill(p)
				}
			}
		}
	}
	var did bool
	if at < 0 && w.draw(5) == 0 {
		time.Sleep(time.Duration(w.draw(60)) * time.Millisecond)
	} else {
		pt := points[w.draw(len(points))]
		before := w.draw(2) == 0
		if at >= 0 {
			pt, before = points[at/2], at%2 == 0
		}
		nth := 1 + w.draw(pt.max)
		t := w.Arm(pt.kind, nth, before, act)
		end := time.After(time.Duration(40+w.draw(100)) * time.Millisecond)
		tick := time.NewTicker(300 * time.Microsecond)
		defer tick.Stop()
	wait:
		for {
			select {
			case <-t.done:
				did = true
				w.C.Count("failures_at_messages", 1)
				w.C.Distinct("failure_points", min(5, kind), max(5, kind), pt.kind, before)
				w.C.Trace("  (at %s, before: %v)", pt.kind, before)
				break wait
			case <-end:
				if !w.Disarm(t) {
					<-t.done
					did = true
				}
				break wait
			case <-tick.C:
			}
		}
	}
	if !did {
		act()
	}
	w.C.Count("incidents", 1)
	if w.draw(3) == 0 {
		time.Sleep(time.Duration(w.draw(20)) * time.Millisecond)
	}
	if newJob > 0 {
		w.StartJob(newJob)
	}
	early := w.draw(2) == 0
	if early {
		r.top(w.P.Workers)
	}
	if w.draw(4) > 0 {
		w.Expire()
	}
	if !early {
		r.top(w.P.Workers)
	}
	for _, k := range []string{"op", "sr"} {
		for _, p := range w.Alive(k) {
			if p.muted.Load() && w.draw(2) == 0 {
				p.muted.Store(false)
			}
		}
	}
	r.exits()
}

// exits notices workers that ended although nobody asked them to.
func (r *Runner) exits() {
	w := r.W
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range w.procs {
		if p.quit.Load() || p.Dead() {
			continue
		}
		select {
		case <-p.end:
			p.quit.Store(true)
			w.C.Count("self_exits", 1)
			w.C.Trace("%s ended: %v", p.ID, p.err)
			if !w.P.Refuse {
				w.report("exit", "%s ended although only others failed: %v", p.ID, p.err)
			}
		default:
		}
	}
}

// stacks adds to the trace where the goroutines of the system are.
func (w *World) stacks() {
	b := make([]byte, 16<<20)
	b = b[:runtime.Stack(b, true)]
	n := map[string]int{}
	for _, g := range strings.Split(string(b), "\n\n") {
		lines := strings.Split(g, "\n")
		state := lines[0]
		if i := strings.Index(state, "["); i >= 0 {
			state = state[i:]
		}
		if i := strings.Index(state, ","); i >= 0 {
			state = state[:i] + "]:"
		}
		out := state
		for _, l := range lines[1:] {
			if i := strings.Index(l, "/repo/"); i >= 0 {
				l = l[i+6:]
				if i := strings.Index(l, " +"); i >= 0 {
					l = l[:i]
				}
				out += " " + l
			}
		}
		if out != state {
			n[out]++
		}
	}
	for g, k := range n {
		w.C.Trace("  %d goroutines %s", k, g)
	}
}

// Finish heals everything and waits for a checkpoint of the whole input, whose contents are
// compared with the final state.
func (r *Runner) Finish() {
	w := r.W
	for _, k := range []string{"op", "sr"} {
		for _, p := range w.Alive(k) {
			p.muted.Store(false)
		}
	}
	if j := w.curJob(); j == nil || j.Dead() {
		w.StartJob(w.P.Workers)
	}
	r.top(w.P.Workers)
	w.Expire()
	w.mu.Lock()
	first := len(w.complete)
	w.mu.Unlock()
	deadline := time.Now().Add(25 * time.Second)
	most := 0
	healed := time.Now()
	for {
		w.C.StopIfFailed()
		r.exits()
		if n := len(w.Alive("op")); n < w.P.Workers {
			r.top(w.P.Workers)
		}
		r.top(w.P.Workers)
		if time.Since(healed) > 100*time.Millisecond { // what a worker that ended by itself leaves behind
			healed = time.Now()
			w.Expire()
		}
		w.mu.Lock()
		n := len(w.complete)
		w.mu.Unlock()
		if n > first {
			w.C.Count("final_states_compared", 1)
			w.C.Trace("checkpoint %d has the whole input", w.complete[n-1])
			break
		}
		w.mu.Lock()
		if w.reached > most { // it goes on
			most = w.reached
			deadline = time.Now().Add(25 * time.Second)
		}
		w.mu.Unlock()
		if time.Now().After(deadline) {
			if lost := w.lostTimers(); len(lost) > 0 {
				w.report("timer-lost", "at the end %d of %d timers have not fired, for instance %s", len(lost), len(w.In.Timers), lost[0])
			}
			w.C.StopIfFailed()
			w.stacks()
			w.report("stuck", "the job makes no progress for 25s although nothing fails, and hasn't finished the input: %s; %d checkpoints published", dump(w), len(w.published))
			w.C.StopIfFailed()
			w.C.Count("unfinished", 1)
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	for s := range w.In.Splits {
		for _, kb := range w.In.Keys {
			key := string(kb)
			n := w.In.Count(s, key)
			w.mu.Lock()
			got, ok := fmt.Sprint(w.sink[fmt.Sprint(s)+" "+key]), n == 0
			for _, v := range w.sink[fmt.Sprint(s)+" "+key] {
				ok = ok || v == fmt.Sprint(n)
			}
			w.mu.Unlock()
			if !ok { // operators that aren't part of the job anymore may have written others
				w.report("sink", "no operator's last sink record of split %d for the key %s is %d: %s", s, dkvx.Short(kb), n, got)
			}
		}
	}
	w.C.NonTrivial(w.C.Index)
}
