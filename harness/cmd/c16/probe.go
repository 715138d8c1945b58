package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
)

// probes restores published checkpoints with splitters and readers of their own.
func (w *world) probes() {
	w.mu.Lock()
	pubs := w.pubs
	w.mu.Unlock()
	for i := 0; i < 6 && len(pubs) > 0; i++ {
		k := pubs[w.c.R.Intn(len(pubs))]
		w.probe(k, w.cutOf(k))
		w.c.StopIfFailed()
	}
}

// cutOf is what a published checkpoint covers. If several deployments used its id, all but the
// last used it for one that wasn't published.
func (w *world) cutOf(k *snapshotpb.JobCheckpoint) map[string]int {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := len(w.deps) - 1; i >= 0; i-- {
		if d := w.deps[i]; d.bars[k.Id] != nil && len(d.bars[k.Id]) == len(d.srs)*len(d.ops) {
			return d.cut(k.Id)
		}
	}
	w.c.Fail("incomplete", "checkpoint %d is published, whose barriers didn't all arrive", k.Id)
	return nil
}

func (w *world) probe(k *snapshotpb.JobCheckpoint, cut map[string]int) {
	c, r := w.c, w.c.R
	n := 1 + r.Intn(5)
	var mu sync.Mutex
	owner, pos, finished := map[string]string{}, map[string]int{}, map[string]bool{}
	first := map[string]bool{}
	for s, p := range cut {
		pos[s] = p
	}
	var ids []string
	pending := map[string][]*workerpb.SourceSplit{}
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprint("sr-", i))
	}
	where := fmt.Sprintf("by a splitter for %d runners restored from checkpoint %d", n, k.Id)
	errs := make(chan error, 10)
	sp := w.src.config().NewSourceSplitter(ids, connectors.SourceSplitterHooks{AssignSplits: func(as map[string][]*workerpb.SourceSplit) {
		all := w.src.splits()
		mu.Lock()
		defer mu.Unlock()
		for id, l := range as {
			for _, s := range l {
				if owner[s.SplitId] != "" {
					c.Report("two-readers", "split %s is assigned to %s and to %s %s", s.SplitId, owner[s.SplitId], id, where)
				}
				owner[s.SplitId] = id
				w.early(all, s.SplitId, where, finished, pos)
			}
			pending[id] = append(pending[id], l...)
		}
	}}, errs)
	if len(k.SourceCheckpoints) != 1 {
		c.Fail("published", "checkpoint %d has %d source checkpoints", k.Id, len(k.SourceCheckpoints))
	}
	if err := sp.Start(k.SourceCheckpoints[0]); err != nil {
		c.Fail("restore", "a splitter can't be restored from checkpoint %d: %v", k.Id, err)
	}
	defer sp.Close()
	var readers []connectors.SourceReader
	for _, id := range ids {
		readers = append(readers, w.src.config().NewSourceReader(connectors.SourceReaderHooks{NotifySplitsFinished: func(l []string) {
			mu.Lock()
			for _, s := range l {
				if owner[s] == id {
					finished[s] = true
				}
			}
			mu.Unlock()
			sp.NotifySplitsFinished(id, l)
		}}))
	}
	c.Count("probes", 1)
	end := time.Now().Add(patience)
	for {
		missing, some := "", false
		for i, id := range ids {
			mu.Lock()
			l := pending[id]
			pending[id] = nil
			mu.Unlock()
			if len(l) > 0 {
				if err := readers[i].AssignSplits(l); err != nil {
					c.Fail("restore", "a reader can't be assigned %v of checkpoint %d: %v", l, k.Id, err)
				}
			}
			mu.Lock()
			idle := true
			for _, o := range owner {
				idle = idle && o != id
			}
			mu.Unlock()
			if idle { // source runners read nothing before they are assigned any splits
				continue
			}
			raw, err := readers[i].ReadEvents()
			if err != nil && !connectors.IsRetryable(err) && !errors.Is(err, connectors.ErrEndOfInput) {
				c.Fail("restore", "a reader fails after checkpoint %d: %v", k.Id, err)
			}
			mu.Lock()
			if len(raw) > 0 {
				some = true
				end = time.Now().Add(patience)
			}
			for _, b := range raw {
				s, q := w.src.decode(b)
				c.Count("probe_records", 1)
				switch {
				case owner[s] != id:
					c.Report("two-readers", "%s reads split %s of %q %s", id, s, owner[s], where)
				case !first[s] && q != pos[s]:
					c.Report("resumed", "split %s is read from record %d on %s, which covers its first %d records", s, q, where, pos[s])
				case q != pos[s]:
					c.Report("order", "record %d of split %s follows %d records %s", q, s, pos[s], where)
				}
				first[s] = true
				pos[s] = q + 1
			}
			mu.Unlock()
			c.StopIfFailed()
		}
		mu.Lock()
		for _, s := range w.src.splits() {
			if s.endless && !first[s.id] || !s.endless && (pos[s.id] < s.n || !s.closed && owner[s.id] == "") {
				missing += fmt.Sprintf(" %s %d/%d", s.id, pos[s.id], s.n)
			}
		}
		mu.Unlock()
		if missing == "" {
			return
		}
		if !some {
			time.Sleep(200 * time.Microsecond)
		}
		if time.Now().After(end) {
			c.Fail("unread", "these splits aren't read %s:%s", where, missing)
		}
	}
}
