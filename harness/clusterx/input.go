// Package clusterx runs a real job, real operators and real source runners over a network that
// can delay messages and lose processes, and knows what the keyed state must be at any position
// of the input.
package clusterx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"verif/harness/opx"
)

// Event is one keyed event of the input.
type Event struct {
	ID    int
	Split int
	Key   string
	Ord   int // how many events of the same split and key precede it
	TS    time.Time
	Timer int64 // 0 = none, unix nanoseconds, unique
	muts  []*handlerpb.StateMutationNamespace
}

// Input is the whole bounded input: split -> record -> events.
type Input struct {
	Splits [][][]*Event
	Events []*Event
	Keys   [][]byte
	Base   time.Time
	Timers map[int64]*Event
	// states[split][key][n] is the state after n events of the split for the key
	states []map[string][]map[string]map[string]string
	// upto[split][cursor][key] is how many events for the key the first cursor records have
	upto [][]map[string]int
}

func nsMain(s int) string { return "s" + strconv.Itoa(s) }
func nsMore(s int) string { return "t" + strconv.Itoa(s) }

// nsFired holds what became of each timer of a key.
const nsFired = "timers"

// GenInput draws an input.
func GenInput(r *rand.Rand, splits, records, keys, big int, timers bool) *Input {
	in := &Input{Base: time.Unix(1_600_000_000, 0).UTC(), Timers: map[int64]*Event{}}
	in.Keys = opx.SubjectKeys(r, keys)
	if r.Intn(3) == 0 {
		in.Keys = in.Keys[:1]
	}
	for s := 0; s < splits; s++ {
		n := records/2 + r.Intn(records)
		if r.Intn(8) == 0 {
			n = 0
		}
		var recs [][]*Event
		count := map[string]int{}
		states := map[string][]map[string]map[string]string{}
		upto := []map[string]int{{}}
		for q := 0; q < n; q++ {
			var evs []*Event
			m := 1
			switch r.Intn(12) {
			case 0:
				m = 0
			case 1:
				m = 2
			}
			for i := 0; i < m; i++ {
				k := string(in.Keys[r.Intn(len(in.Keys))])
				e := &Event{ID: len(in.Events), Split: s, Key: k, Ord: count[k], TS: in.Base.Add(time.Duration(q)*time.Second + time.Duration(r.Intn(5000))*time.Millisecond)}
				if timers && r.Intn(4) == 0 {
					e.Timer = in.Base.Add(100*time.Hour + time.Duration(r.Intn(3600))*time.Second).UnixNano()
					if r.Intn(3) == 0 {
						e.Timer = e.TS.Add(time.Duration(r.Intn(20)) * time.Second).UnixNano()
					}
					e.Timer = e.Timer/1e6*1e6 + int64(e.ID)
					in.Timers[e.Timer] = e
				}
				count[k]++
				e.muts = mutations(r, e, big)
				if len(states[k]) == 0 {
					states[k] = append(states[k], map[string]map[string]string{})
				}
				states[k] = append(states[k], after(states[k][len(states[k])-1], e.muts))
				in.Events = append(in.Events, e)
				evs = append(evs, e)
			}
			recs = append(recs, evs)
			u := map[string]int{}
			for k, c := range count {
				u[k] = c
			}
			upto = append(upto, u)
		}
		in.Splits = append(in.Splits, recs)
		in.states = append(in.states, states)
		in.upto = append(in.upto, upto)
	}
	return in
}

func put(ns, k, v string) *handlerpb.StateMutationNamespace {
	return &handlerpb.StateMutationNamespace{Namespace: ns, Mutations: []*handlerpb.StateMutation{{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: []byte(k), Value: []byte(v)}}}}}
}

func del(ns, k string) *handlerpb.StateMutationNamespace {
	return &handlerpb.StateMutationNamespace{Namespace: ns, Mutations: []*handlerpb.StateMutation{{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: []byte(k)}}}}}
}

func mutations(r *rand.Rand, e *Event, big int) []*handlerpb.StateMutationNamespace {
	v := strconv.Itoa(e.Ord + 1)
	out := []*handlerpb.StateMutationNamespace{put(nsMain(e.Split), "n", v)}
	for i := r.Intn(3); i > 0; i-- {
		k := string(rune('a' + r.Intn(3)))
		if r.Intn(3) == 0 {
			out = append(out, del(nsMore(e.Split), k))
			continue
		}
		x := fmt.Sprintf("%d.%d", e.ID, i)
		if big > 0 && r.Intn(3) == 0 {
			x += string(bytes.Repeat([]byte{'x'}, r.Intn(big)))
		}
		out = append(out, put(nsMore(e.Split), k, x))
	}
	return out
}

func after(st map[string]map[string]string, muts []*handlerpb.StateMutationNamespace) map[string]map[string]string {
	n := map[string]map[string]string{}
	for ns, m := range st {
		n[ns] = map[string]string{}
		for k, v := range m {
			n[ns][k] = v
		}
	}
	for _, ns := range muts {
		for _, m := range ns.Mutations {
			switch t := m.Mutation.(type) {
			case *handlerpb.StateMutation_Put:
				if n[ns.Namespace] == nil {
					n[ns.Namespace] = map[string]string{}
				}
				n[ns.Namespace][string(t.Put.Key)] = string(t.Put.Value)
			case *handlerpb.StateMutation_Delete:
				delete(n[ns.Namespace], string(t.Delete.Key))
				if len(n[ns.Namespace]) == 0 {
					delete(n, ns.Namespace)
				}
			}
		}
	}
	return n
}

// Count is the number of events of the split for the key.
func (in *Input) Count(split int, key string) int { return max(0, len(in.states[split][key])-1) }

// At is the state of a key after n events of the split, nil when there is none.
func (in *Input) At(split int, key string, n int) map[string]map[string]string {
	if n == 0 || n >= len(in.states[split][key]) {
		return nil
	}
	return in.states[split][key][n]
}

// Upto is the number of events for the key among the first cursor records of the split.
func (in *Input) Upto(split, cursor int, key string) int {
	if cursor >= len(in.upto[split]) {
		cursor = len(in.upto[split]) - 1
	}
	return in.upto[split][cursor][key]
}

// endID identifies events without effect that readers emit at the end of their splits to let
// the watermark pass all timers.
const endID = 1<<32 - 1

func (in *Input) end() time.Time { return in.Base.Add(1000 * time.Hour) }

func encodeID(id int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(id)) }
func decodeID(b []byte) int {
	if len(b) != 4 {
		return -1
	}
	return int(binary.BigEndian.Uint32(b))
}
