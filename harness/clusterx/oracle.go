package clusterx

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	"verif/harness/dkvx"
	"verif/harness/ref"
)

type handler struct {
	w *World
	p *Proc
}

// KeyEventBatch keys records.
func (h *handler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	w := h.w
	w.pause(w.P.Latency)
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for i, e := range events {
		a, b, _ := strings.Cut(string(e), ":")
		if a == "end" {
			out[i] = []*handlerpb.KeyedEvent{{Key: w.In.Keys[0], Timestamp: timestamppb.New(w.In.end()), Value: encodeID(endID)}}
			continue
		}
		s, _ := strconv.Atoi(a)
		q, _ := strconv.Atoi(b)
		out[i] = []*handlerpb.KeyedEvent{}
		for _, ev := range w.In.Splits[s][q] {
			out[i] = append(out[i], &handlerpb.KeyedEvent{Key: []byte(ev.Key), Timestamp: timestamppb.New(ev.TS), Value: encodeID(ev.ID)})
		}
	}
	if h.p.Dead() {
		return nil, errDead
	}
	return out, ctx.Err()
}

type entries = map[string]map[string]string

func read(nss []*handlerpb.StateEntryNamespace, dup func(string)) entries {
	got := entries{}
	for _, ns := range nss {
		if got[ns.Namespace] != nil {
			dup(ns.Namespace)
		}
		m := map[string]string{}
		for _, e := range ns.Entries {
			if _, d := m[string(e.Key)]; d {
				dup(ns.Namespace + "/" + string(e.Key))
			}
			m[string(e.Key)] = string(e.Value)
		}
		got[ns.Namespace] = m
	}
	return got
}

// progress is how many events of the split the state has seen.
func progress(st entries, split int) int {
	n, _ := strconv.Atoi(st[nsMain(split)]["n"])
	return n
}

// compare checks the part of a key's state that a split's events make.
func (w *World) compare(st entries, split int, key string, n int) string {
	want := w.In.At(split, key, n)
	for _, ns := range []string{nsMain(split), nsMore(split)} {
		for k, v := range want[ns] {
			if g, ok := st[ns][k]; !ok {
				return fmt.Sprintf("entry %s/%s = %s is missing", ns, k, dkvx.Short([]byte(v)))
			} else if g != v {
				return fmt.Sprintf("entry %s/%s is %s instead of %s", ns, k, dkvx.Short([]byte(g)), dkvx.Short([]byte(v)))
			}
		}
		for k, v := range st[ns] {
			if _, ok := want[ns][k]; !ok {
				return fmt.Sprintf("entry %s/%s = %s should not exist", ns, k, dkvx.Short([]byte(v)))
			}
		}
	}
	return ""
}

// ProcessEventBatch compares the state it is given with the state a failure-free run has.
func (h *handler) ProcessEventBatch(ctx context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	w := h.w
	w.pause(w.P.Latency)
	if h.p.Dead() {
		return nil, errDead
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	states := map[string]entries{}
	for _, ks := range req.KeyStates {
		st := read(ks.StateEntryNamespaces, func(x string) {
			w.report("state-ns", "%s is given %q of key %s twice", h.p.ID, x, dkvx.Short(ks.Key))
		})
		states[string(ks.Key)] = st
		for s := range w.In.Splits {
			n := progress(st, s)
			if d := w.compare(st, s, string(ks.Key), n); d != "" {
				w.report("state", "%s is given a state of key %s which no run has: after %d events of split %d, %s", h.p.ID, dkvx.Short(ks.Key), n, s, d)
			}
		}
		w.C.Count("states_compared", 1)
	}
	told := req.Watermark.AsTime()
	resp := &handlerpb.ProcessEventBatchResponse{}
	for _, ev := range req.Events {
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			id := decodeID(t.KeyedEvent.Value)
			if id == endID {
				continue
			}
			if id < 0 || id >= len(w.In.Events) || w.In.Events[id].Key != string(t.KeyedEvent.Key) {
				w.report("unknown-event", "%s is given an event which isn't in the input: %v", h.p.ID, t.KeyedEvent)
				continue
			}
			e := w.In.Events[id]
			w.seen.Add(1)
			st := states[e.Key]
			if st == nil {
				w.report("missing-state", "%s is given an event of key %s without its state", h.p.ID, dkvx.Short([]byte(e.Key)))
				st = entries{}
				states[e.Key] = st
			}
			if n := progress(st, e.Split); n != e.Ord {
				what := "lost"
				if n > e.Ord {
					what = "applied twice"
				}
				w.report("state", "%s is given event %d of split %d for key %s, of which the state has %d: events are %s", h.p.ID, e.Ord, e.Split, dkvx.Short([]byte(e.Key)), n, what)
			}
			kr := &handlerpb.KeyResult{Key: []byte(e.Key)}
			kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, e.muts...)
			if e.Timer != 0 {
				if tm := time.Unix(0, e.Timer); tm.After(told) {
					kr.NewTimers = append(kr.NewTimers, timestamppb.New(tm))
				} else {
					kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, put(nsFired, strconv.FormatInt(e.Timer, 10), "late"))
				}
			}
			resp.KeyResults = append(resp.KeyResults, kr)
			states[e.Key] = after(st, kr.StateMutationNamespaces)
			resp.SinkRequests = append(resp.SinkRequests, &handlerpb.SinkRequest{Id: "sink", Value: []byte(fmt.Sprintf("%d %d %s", e.Split, e.Ord+1, e.Key))})
		case *handlerpb.Event_TimerExpired:
			tm := t.TimerExpired.Timestamp.AsTime().UnixNano()
			key := string(t.TimerExpired.Key)
			e := w.In.Timers[tm]
			if e == nil || e.Key != key {
				w.report("timer-spurious", "%s is given a timer of key %s which nothing sets", h.p.ID, dkvx.Short(t.TimerExpired.Key))
				continue
			}
			w.C.Count("timers_fired", 1)
			st := states[key]
			if n := progress(st, e.Split); n <= e.Ord {
				w.report("timer-spurious", "%s is given the timer of event %d of split %d for key %s, of which the state has only %d", h.p.ID, e.Ord, e.Split, dkvx.Short([]byte(key)), n)
			}
			if v, ok := st[nsFired][strconv.FormatInt(tm, 10)]; ok {
				w.report("timer-spurious", "%s is given the timer of event %d of split %d for key %s, which the state has as %s", h.p.ID, e.Ord, e.Split, dkvx.Short([]byte(key)), v)
			}
			kr := &handlerpb.KeyResult{Key: []byte(key), StateMutationNamespaces: []*handlerpb.StateMutationNamespace{put(nsFired, strconv.FormatInt(tm, 10), "fired")}}
			resp.KeyResults = append(resp.KeyResults, kr)
			states[key] = after(st, kr.StateMutationNamespaces)
		}
	}
	w.pause(w.P.Latency)
	w.passing("handled", false)
	if h.p.Dead() {
		return nil, errDead
	}
	return resp, nil
}

// sink records what was last written for each split and key.
type sink struct {
	w *World
	p *Proc
}

func (s *sink) Write(b []byte) error {
	if s.p.Dead() {
		return errDead
	}
	a, rest, _ := strings.Cut(string(b), " ")
	n, key, ok := strings.Cut(rest, " ")
	if !ok {
		return errors.New("unknown sink record")
	}
	s.w.mu.Lock()
	if s.w.sink[a+" "+key] == nil {
		s.w.sink[a+" "+key] = map[string]string{}
	}
	s.w.sink[a+" "+key][s.p.ID] = n
	s.w.mu.Unlock()
	return nil
}

func decodeJob(b []byte) *snapshotpb.JobCheckpoint {
	k := &snapshotpb.JobCheckpoint{}
	if err := pb.Unmarshal(b, k); err != nil {
		return nil
	}
	return k
}

// lost lists the timers that aren't done at the end of the input, in the last checkpoint.
func (w *World) lostTimers() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.lost
}

// verify compares the contents of a published checkpoint with the state that a failure-free
// run has at its positions. It reports whether the positions are the ends of the splits and all
// timers are done.
func (w *World) verify(k *snapshotpb.JobCheckpoint) (end bool) {
	pos := map[int]int{}
	for _, sc := range k.SourceCheckpoints {
		for _, b := range sc.SplitStates {
			s, c := ParseSplitState(b)
			if s < 0 || s >= len(w.In.Splits) {
				w.report("positions", "checkpoint %d has the unknown split state %q", k.Id, b)
				return false
			}
			if _, ok := pos[s]; ok {
				w.report("positions", "checkpoint %d has two positions of split %d", k.Id, s)
			}
			pos[s] = c
		}
	}
	end = true
	for s := range w.In.Splits {
		if _, ok := pos[s]; !ok {
			w.report("positions", "checkpoint %d has no position of split %d", k.Id, s)
		}
		if pos[s] < len(w.In.Splits[s]) {
			end = false
		}
	}
	covered := map[int]string{}
	done := map[int64]bool{}
	clone := w.FS.Clone()
	for _, o := range k.OperatorCheckpoints {
		lo, hi := int(o.KeyGroupRange.GetStart()), int(o.KeyGroupRange.GetEnd())
		for g := lo; g < hi; g++ {
			if other, ok := covered[g]; ok {
				w.report("checkpoint-state", "checkpoint %d: group %d is in those of %s and %s", k.Id, g, other, o.OperatorId)
			}
			covered[g] = o.OperatorId
		}
		db, err := dkvx.OpenSafe(dkv.DBOptions{FileSystem: clone.At("/check"), Logger: dkvx.Quiet}, []recovery.CheckpointHandle{{CheckpointID: k.Id, URI: o.DkvFileUri}})
		if err != nil {
			w.report("checkpoint-open", "checkpoint %d of %s can't be opened: %v", k.Id, o.OperatorId, err)
			continue
		}
		st := operator.NewKeyedStateStore(db, partitioning.NewKeySpace(w.P.Groups, 1))
		for _, kb := range w.In.Keys {
			key := string(kb)
			if g := ref.Group(kb, w.P.Groups); g < lo || g >= hi {
				continue
			}
			nss, err := st.GetState(kb)
			if err != nil {
				w.report("checkpoint-open", "checkpoint %d of %s: state of %s: %v", k.Id, o.OperatorId, dkvx.Short(kb), err)
				continue
			}
			got := read(nss, func(x string) {
				w.report("state-ns", "checkpoint %d of %s: %q of key %s twice", k.Id, o.OperatorId, x, dkvx.Short(kb))
			})
			for s := range w.In.Splits {
				n := w.In.Upto(s, pos[s], key)
				w.C.Count("checkpoint_states_compared", 1)
				if d := w.compare(got, s, key, n); d != "" {
					w.report("checkpoint-state", "checkpoint %d of %s has position %d of split %d, %d events for key %s precede it, but of those the state has %d: %s", k.Id, o.OperatorId, pos[s], s, n, dkvx.Short(kb), progress(got, s), d)
				}
			}
			for ts := range got[nsFired] {
				x, _ := strconv.ParseInt(ts, 10, 64)
				e := w.In.Timers[x]
				if e == nil || e.Key != key || e.Ord >= w.In.Upto(e.Split, pos[e.Split], key) {
					w.report("checkpoint-state", "checkpoint %d of %s: the state of key %s has a timer that was not set", k.Id, o.OperatorId, dkvx.Short(kb))
				}
				done[x] = true
			}
		}
		db.Close()
	}
	for g := 0; g < w.P.Groups; g++ {
		if _, ok := covered[g]; !ok {
			w.report("checkpoint-state", "checkpoint %d: no operator has group %d", k.Id, g)
			break
		}
	}
	if w.C.Failed() {
		return end
	}
	var lost []string
	if end {
		for x, e := range w.In.Timers {
			if !done[x] {
				lost = append(lost, fmt.Sprintf("%s at %s", dkvx.Short([]byte(e.Key)), time.Unix(0, x).UTC()))
			}
		}
		sort.Strings(lost)
	}
	w.mu.Lock()
	w.lost = lost
	w.reached = 0
	for _, c := range pos {
		w.reached += c
	}
	w.mu.Unlock()
	return end && len(lost) == 0
}

// starting runs at the deployment of a source runner.
func (w *World) starting(job *Proc) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if job != w.job {
		return
	}
	w.floor = 0
	for _, id := range w.published {
		w.floor = max(w.floor, id)
	}
}

// deploying runs at the deployment of an operator.
func (w *World) deploying(job, op *Proc, req *workerpb.DeployOperatorRequest) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.deploys++
	w.C.Count("operators_deployed", 1)
	if len(req.Operators) != w.P.Workers || len(req.SourceRunnerIds) != w.P.Workers {
		w.report("deploy-members", "%s is deployed with %d operators and %d source runners, the job is configured with %d", op.ID, len(req.Operators), len(req.SourceRunnerIds), w.P.Workers)
	}
	for _, o := range req.Checkpoints {
		if o.CheckpointId != req.Checkpoints[0].CheckpointId {
			w.report("restore-id", "%s is deployed from checkpoints %d and %d", op.ID, o.CheckpointId, req.Checkpoints[0].CheckpointId)
		}
	}
	id := uint64(0)
	if len(req.Checkpoints) > 0 {
		id = req.Checkpoints[0].CheckpointId
		w.restored[id]++
		w.C.Count("operators_restored", 1)
	}
	empty := false
	for i, o := range req.Operators {
		if rs := ref.Ranges(w.P.Groups, len(req.Operators)); o.Id == op.ID {
			empty = rs[i].Start == rs[i].End
		}
	}
	if job == w.job && id < w.floor && !(empty && id == 0) {
		w.report("restore-id", "%s is deployed from checkpoint %d although %d was complete before the deployment began", op.ID, id, w.floor)
	}
	w.C.Trace("%s is deployed from checkpoint %d by %s", op.ID, id, job.ID)
}

// Final reads the last published checkpoint back from the disk.
func (w *World) last() *snapshotpb.JobCheckpoint {
	var best *snapshotpb.JobCheckpoint
	for p, b := range w.Disk.Files(func(p string) bool { return strings.HasSuffix(p, ".snapshot") && !strings.Contains(p, "savepoint") }) {
		_ = p
		if k := decodeJob(b); k != nil && (best == nil || k.Id > best.Id) {
			best = k
		}
	}
	return best
}
