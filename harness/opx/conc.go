package opx

import (
	"context"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	"verif/harness/dkvx"
	"verif/harness/ref"
)

type item struct {
	ev      *workerpb.Event
	to      *Node     // nil: all
	wm      time.Time // of a watermark
	barrier *Ckpt
	evN     int
}

// Conc lets every runner send about n messages, concurrently and over one stream per operator as
// real runners do. Between them they send the barriers of the checkpoints ids, each of which starts
// when its predecessor is complete. complete lets some runners report the end of their input.
func (d *Dep) Conc(n int, ids []uint64, pace time.Duration, complete bool) []*Ckpt {
	w := d.W
	var ks []*Ckpt
	for _, id := range ids {
		ks = append(ks, d.Begin(id))
	}
	var wg sync.WaitGroup
	for i, sr := range d.SRs {
		r := rand.New(rand.NewSource(w.R.Int63()))
		mine := n/2 + r.Intn(n)
		end := complete && i > 0 && r.Intn(2) == 0 // at least one goes on
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.runner(sr, r, mine, ks, pace, end)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		w.C.Fail("stuck", "senders are blocked for 60s")
	}
	for _, k := range ks {
		if !k.Complete() {
			w.C.Fail("ack", "checkpoint %d was acknowledged by %d of %d operators after all barriers", k.ID, len(k.Ops), k.want)
		}
	}
	return ks
}

func (d *Dep) runner(sr string, r *rand.Rand, n int, ks []*Ckpt, pace time.Duration, end bool) {
	w := d.W
	streams := map[*Node]chan item{}
	var wg sync.WaitGroup
	for _, node := range d.Nodes {
		c := make(chan item, 1+r.Intn(20))
		streams[node] = c
		sr2 := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range c {
				if pace > 0 && sr2.Intn(4) == 0 {
					time.Sleep(time.Duration(sr2.Int63n(int64(pace))))
				} else if sr2.Intn(2) == 0 {
					runtime.Gosched()
				}
				d.stream(sr, node, it)
			}
		}()
	}
	put := func(it item) {
		for _, node := range d.Nodes { // in order: maps would reorder the draws
			if it.to == nil || it.to == node {
				streams[node] <- it
			}
		}
	}
	at := map[int][]*Ckpt{}
	pos := 0
	for i, k := range ks {
		pos += r.Intn(max(1, (n-pos)/(len(ks)-i)+1))
		at[pos] = append(at[pos], k)
	}
	d.mu.Lock()
	wm := d.wm[sr]
	d.mu.Unlock()
	if wm.IsZero() {
		wm = w.base
	}
	endAt := n + 1
	if end {
		endAt = r.Intn(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == endAt {
			put(item{ev: &workerpb.Event{Event: &workerpb.Event_SourceComplete{SourceComplete: &workerpb.SourceCompleteEvent{}}}})
			w.C.Count("completed_sources", 1)
		}
		for _, k := range at[i] {
			// the job starts it after its predecessor
			for j := range ks {
				if ks[j] == k && j > 0 {
					<-ks[j-1].done
				}
			}
			w.mu.Lock()
			for _, node := range d.Nodes {
				k.cut[sr+"/"+node.Name] = d.sentTo(node, sr)
			}
			w.mu.Unlock()
			put(item{ev: Barrier(k.ID), barrier: k})
			w.C.Count("barriers", len(d.Nodes))
		}
		switch x := r.Intn(20); {
		case x < 14 && i < endAt:
			node, ev, _ := d.NewEvent(sr)
			w.mu.Lock()
			d.sent[sr+"/"+node.Name]++
			w.mu.Unlock()
			put(item{ev: ev, to: node, evN: 1})
		case x < 19:
			step := time.Duration(r.Int63n(int64(w.P.Horizon)))
			if r.Intn(3) == 0 {
				step = 0
			}
			wm = wm.Add(step)
			d.mu.Lock()
			d.wm[sr] = wm
			d.mu.Unlock()
			put(item{ev: WM(wm), wm: wm})
			w.C.Count("watermarks", 1)
		default:
			if pace > 0 {
				time.Sleep(time.Duration(r.Int63n(int64(pace))))
			}
		}
	}
	for _, c := range streams {
		close(c)
	}
	wg.Wait()
}

// stream delivers one message and keeps the bounds of what the operator may know.
func (d *Dep) stream(sr string, n *Node, it item) {
	w := d.W
	n.mu.Lock()
	switch {
	case !it.wm.IsZero():
		if n.behind[sr] {
			n.held[sr] = it.wm
			w.C.Count("watermarks_behind_barrier", 1)
		} else {
			n.wmSent[sr] = it.wm
		}
	case it.barrier != nil:
		n.behind[sr] = true
	case n.behind[sr]:
		w.C.Count("events_behind_barrier", it.evN)
	}
	n.mu.Unlock()
	if err := d.Send(context.Background(), n, sr, it.ev); err != nil {
		w.C.Report("send", "message of %s to %s: %v", sr, n.Name, err)
	}
	n.mu.Lock()
	if !it.wm.IsZero() {
		n.wmAcked[sr] = it.wm
	}
	n.mu.Unlock()
	w.C.Count("events", it.evN)
}

// release is called when a checkpoint was taken: what the runners sent behind their barriers may
// be acted on. n.mu is held.
func (n *Node) release() {
	for sr, t := range n.held {
		n.wmSent[sr] = t
	}
	n.behind, n.held = map[string]bool{}, map[string]time.Time{}
}

// Contents reopens every operator checkpoint of k, on a copy of the files, and compares the state
// and timers it holds for the operator's groups with the reference.
func (w *World) Contents(k *Ckpt) {
	for _, o := range k.Ops {
		fs := w.FS.Clone()
		lo, hi := int(o.KeyGroupRange.GetStart()), int(o.KeyGroupRange.GetEnd())
		want := k.By[o.OperatorId].Restrict(w.P.Groups, lo, hi)
		db, err := dkvx.OpenSafe(dkv.DBOptions{FileSystem: fs.At("/check"), Logger: dkvx.Quiet}, []recovery.CheckpointHandle{{CheckpointID: k.ID, URI: o.DkvFileUri}})
		if err != nil {
			w.report("cut-contents", "checkpoint %d of %s can't be opened: %v", k.ID, o.OperatorId, err)
			continue
		}
		ks := partitioning.NewKeySpace(w.P.Groups, 1)
		st := operator.NewKeyedStateStore(db, ks)
		for _, kb := range w.P.Keys {
			key := string(kb)
			if g := ref.Group(kb, w.P.Groups); g < lo || g >= hi {
				continue
			}
			nss, err := st.GetState(kb)
			if err != nil {
				w.report("cut-contents", "checkpoint %d of %s: state of %s: %v", k.ID, o.OperatorId, dkvx.Short(kb), err)
				continue
			}
			if df := diff(entries(nss, func(string, string) {}), want.State[key]); df != "" {
				w.report("cut-contents", "checkpoint %d of %s: key %s: %s", k.ID, o.OperatorId, dkvx.Short(kb), df)
			}
			w.C.Count("checkpoint_keys_compared", 1)
		}
		if hi > lo {
			tst := operator.NewTimerStore(db, ks, partitioning.KeyGroupRange{Start: lo, End: hi}, 1<<30)
			got := map[Timer]bool{}
			for {
				t, ok := tst.Pop()
				if !ok {
					break
				}
				got[Timer{string(t.Key), t.Timestamp.UnixNano()}] = true
			}
			for t := range want.Timers {
				if !got[t] {
					w.report("cut-contents", "checkpoint %d of %s lacks the timer of %s at %s, pending at the cut", k.ID, o.OperatorId, dkvx.Short([]byte(t.Key)), ts(t.T))
					break
				}
			}
			for t := range got {
				if !want.Timers[t] {
					w.report("cut-contents", "checkpoint %d of %s has a timer of %s at %s, not pending at the cut", k.ID, o.OperatorId, dkvx.Short([]byte(t.Key)), ts(t.T))
					break
				}
			}
			w.C.Count("checkpoint_timers_compared", len(got))
		}
		db.Close()
		w.C.Count("checkpoints_reopened", 1)
	}
}
