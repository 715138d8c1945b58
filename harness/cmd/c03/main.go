// C03: keyed state as the handler left it.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/workers/operator"
	"verif/harness/dkvx"
	"verif/harness/opx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C03", Level: "exploration",
		Rule: "Every ProcessEventBatchRequest real operators (1-3, deployed through the real Assembly) make of a reference handler is compared, per key, with a map the handler keeps from its own answers: entries grouped by namespace, no namespace twice, no entry of another key, namespace or timer, nothing missing, nothing resurrected; subject keys, namespaces and entry keys are prefixes of one another, empty, all-zero, 0xff or longer than 255 bytes; batches of 1-12 events, memtables of 200-3200 bytes so that rotation, flush and compaction happen throughout, redeployments and restarts from checkpoints in between. The store suite drives the state store and the timer store directly with random byte strings and compares every key after every few mutations, with flushes held at random points. The async suite lets batches time out by the system clock with slow handlers. A case is non-trivial when it compared entries.",
		Suites: []vlib.Suite{
			{Name: "ops", Quick: 1600, Thorough: 40000, Run: ops},
			{Name: "store", Quick: 500, Thorough: 20000, Run: store},
			{Name: "async", Quick: 60, Thorough: 1200, Run: async},
		},
		Require: []string{"states_compared", "entries_compared", "operator_checkpoints", "deployments", "store_states_compared", "store_deletes", "tables_written"},
		Assume:  []string{"the handler returns at least the mutations it made, in order; a key that is repeated in one answer is applied in answer order"},
	})
}

func ops(c *vlib.Case) {
	r := c.R
	w := opx.New(c, opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(12), MaxMem: 200 + r.Intn(3000), BigValues: 300,
		TimerCache: uint64(1 + r.Intn(2000)), Aspects: [][]string{opx.State, opx.Liveness}})
	defer w.Close()
	run(c, w, 1+r.Intn(4), 30+r.Intn(150))
	count(c, w)
}

func count(c *vlib.Case, w *opx.World) {
	c.Count("tables_written", w.FS.Saves(".sst"))
	c.NonTrivial(c.Index)
}

func run(c *vlib.Case, w *opx.World, gens, steps int) {
	r := c.R
	n := 1 + r.Intn(3)
	var srs []string
	for i := 0; i <= r.Intn(3); i++ {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	names := func(gen int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("op-%d-%d", gen, i))
		}
		return
	}
	nodes := w.Start(names(0)...)
	d := w.Deploy(nodes, srs, nil)
	var last *opx.Ckpt
	id := uint64(0)
	for gen := 1; gen <= gens; gen++ {
		for step := 0; step < steps; step++ {
			switch x := r.Intn(30); {
			case x < 22:
				d.Tracked(srs[r.Intn(len(srs))])
			case x < 26:
				d.Advance()
			case x < 28:
				d.Flush()
			case x == 28:
				id++
				last = d.Checkpoint(id, r.Intn(3))
			default:
				if last != nil && r.Intn(2) == 0 {
					if err := d.Retain(last.ID); err != nil {
						c.Fail("retain", "%v", err)
					}
				}
			}
			c.StopIfFailed()
		}
		d.Probe()
		c.StopIfFailed()
		if last == nil {
			id++
			last = d.Checkpoint(id, 0)
		}
		if gen%2 == 0 || r.Intn(2) == 0 { // restart
			if r.Intn(2) == 0 {
				for _, x := range nodes {
					x.Kill()
				}
				nodes = w.Start(names(gen)...)
			}
			d = w.Deploy(nodes, srs, last)
			d.Probe()
			c.StopIfFailed()
		}
	}
}

func async(c *vlib.Case) {
	r := c.R
	w := opx.New(c, opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(12), MaxMem: 200 + r.Intn(3000), BigValues: 300,
		TimerCache: uint64(1 + r.Intn(2000)), Aspects: [][]string{opx.State, opx.Liveness}, Delay: time.Duration(1+r.Intn(3)) * time.Millisecond, Latency: time.Millisecond})
	defer w.Close()
	run(c, w, 1+r.Intn(2), 30+r.Intn(50))
	count(c, w)
}

// store drives the state store and the timer store over one database.
func store(c *vlib.Case) {
	r := c.R
	fs := dkvx.Either(c, c.R)
	gate := &dkvx.Gate{Max: 2}
	fs.OnSave(gate.Pass)
	if r.Intn(3) == 0 {
		budget := 4 // a held flush holds up every database of the process
		skip := r.Intn(10)
		gate.Set(func(p string) bool {
			if !strings.HasSuffix(p, ".sst") || budget == 0 {
				return false
			}
			if skip--; skip >= 0 {
				return false
			}
			budget--
			return true
		})
	}
	groups := 1 + r.Intn(4)
	if r.Intn(4) == 0 {
		groups = 1 + r.Intn(65535)
	}
	ks := partitioning.NewKeySpace(groups, 1)
	o := dkvx.Options(r, 200+r.Intn(3000))
	o.FileSystem, o.Logger = fs.At("/db"), dkvx.Quiet
	db := dkv.Open(o, nil)
	ss := operator.NewKeyedStateStore(db, ks)
	sh := opx.NewShadow()
	word := func(max int) string {
		n := r.Intn(4)
		switch r.Intn(12) {
		case 0:
			n = r.Intn(max)
		case 1:
			n = []int{0, 126, 127, 128, 254, 255, 256, 257, 300}[r.Intn(9)]
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = []byte{0, 1, 2, 'a', 0xff}[r.Intn(5)]
		}
		return string(b)
	}
	var keys, nss, eks []string
	for i := 0; i < 3+r.Intn(12); i++ {
		keys = append(keys, word(2000))
		nss = append(nss, strings.ToValidUTF8(word(600), "z"))
		eks = append(eks, word(500))
	}
	if r.Intn(2) == 0 { // keys that look like the encoding of other keys
		k := keys[r.Intn(len(keys))]
		keys = append(keys, string([]byte{0, 0, 0, byte(len(k))})+k, k+"\x00", k+"\x01a", "\x00"+k)
	}
	if r.Intn(12) == 0 { // lengths beyond two bytes
		long := strings.Repeat("L", 65536)
		keys = append(keys[:min(len(keys), 4)], long+"La", "L", "La", long)
		nss = append(nss, long+"n", "n")
		eks = append(eks, long+"e", "e")
		c.Count("store_long_keys", 1)
	}
	seq := 0
	value := func() string {
		seq++
		switch r.Intn(6) {
		case 0:
			return ""
		case 1:
			return fmt.Sprint(seq) + strings.Repeat("v", r.Intn(1500))
		}
		return fmt.Sprint(seq)
	}
	var timers *operator.TimerStore
	if groups < 50 {
		timers = operator.NewTimerStore(db, ks, partitioning.KeyGroupRange{Start: 0, End: groups}, uint64(1+r.Intn(3000)))
	}
	check := func(all bool) {
		for _, k := range keys {
			if !all && r.Intn(3) > 0 {
				continue
			}
			got, err := ss.GetState([]byte(k))
			if err != nil {
				c.Fail("get", "state of key %s: %v", dkvx.Short([]byte(k)), err)
			}
			compare(c, k, got, sh.State[k])
		}
		c.StopIfFailed()
	}
	for step := 0; step < 20+r.Intn(120); step++ {
		k := keys[r.Intn(len(keys))]
		var muts []*handlerpb.StateMutationNamespace
		for i := r.Intn(3); i >= 0; i-- {
			ns := &handlerpb.StateMutationNamespace{Namespace: nss[r.Intn(len(nss))]}
			for j := r.Intn(5); j > 0; j-- {
				e := []byte(eks[r.Intn(len(eks))])
				if r.Intn(3) == 0 {
					c.Count("store_deletes", 1)
					ns.Mutations = append(ns.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: e}}})
				} else {
					ns.Mutations = append(ns.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: e, Value: []byte(value())}}})
				}
			}
			muts = append(muts, ns)
		}
		if err := ss.ApplyMutations([]byte(k), muts); err != nil {
			c.Fail("apply", "mutations of key %s: %v", dkvx.Short([]byte(k)), err)
		}
		sh.Apply(k, muts)
		if timers != nil && r.Intn(3) == 0 {
			timers.Put([]byte(keys[r.Intn(len(keys))]), time.Unix(int64(r.Intn(100)), 0))
		}
		if timers != nil && r.Intn(6) == 0 {
			timers.Pop()
		}
		if r.Intn(4) == 0 {
			check(false)
		}
		if r.Intn(20) == 0 {
			if err := settle(db); err != nil {
				c.Fail("tasks", "%v", err)
			}
		}
		if r.Intn(40) == 0 { // continue from a checkpoint
			h, err := db.Checkpoint(uint64(step + 1))()
			if err != nil {
				c.Fail("checkpoint", "%v", err)
			}
			if err := settle(db); err != nil {
				c.Fail("tasks", "%v", err)
			}
			db.Close()
			db, err = dkvx.OpenSafe(o, []recovery.CheckpointHandle{h})
			if err != nil {
				c.Fail("open", "%v", err)
			}
			ss = operator.NewKeyedStateStore(db, ks)
			if timers != nil {
				timers = operator.NewTimerStore(db, ks, partitioning.KeyGroupRange{Start: 0, End: groups}, uint64(1+r.Intn(3000)))
			}
			check(true)
		}
	}
	check(true)
	gate.Set(nil)
	if err := settle(db); err != nil {
		c.Fail("tasks", "%v", err)
	}
	check(true)
	db.Close()
	c.Count("tables_written", fs.Saves(".sst"))
	c.NonTrivial(c.Index)
}

// settle waits for background tasks. The process-wide task queues hand tasks of one database to
// whichever database's goroutine is next, so errors of databases that other cases closed show up.
func settle(db *dkv.DB) error {
	if err := dkvx.Wait(db); err != nil && !strings.Contains(err.Error(), storage.ErrClosed.Error()) {
		return err
	}
	return nil
}

func compare(c *vlib.Case, k string, got []*handlerpb.StateEntryNamespace, want opx.Entries) {
	seen := map[string]bool{}
	n := 0
	for _, ns := range got {
		if seen[ns.Namespace] {
			c.Report("state-ns", "key %s is given namespace %q twice", dkvx.Short([]byte(k)), ns.Namespace)
		}
		seen[ns.Namespace] = true
		es := map[string]bool{}
		for _, e := range ns.Entries {
			if es[string(e.Key)] {
				c.Report("state", "key %s namespace %s: entry %s twice", dkvx.Short([]byte(k)), dkvx.Short([]byte(ns.Namespace)), dkvx.Short(e.Key))
			}
			es[string(e.Key)] = true
			v, ok := want[ns.Namespace][string(e.Key)]
			if !ok || !bytes.Equal([]byte(v), e.Value) {
				c.Report("state", "key %s namespace %s entry %s is %s, want %s (present: %v)", dkvx.Short([]byte(k)), dkvx.Short([]byte(ns.Namespace)), dkvx.Short(e.Key), dkvx.Short(e.Value), dkvx.Short([]byte(v)), ok)
			}
			n++
		}
	}
	total := 0
	var missing []string
	for ns, m := range want {
		total += len(m)
		for e := range m {
			if !seen[ns] {
				missing = append(missing, fmt.Sprintf("%s/%s", dkvx.Short([]byte(ns)), dkvx.Short([]byte(e))))
			}
		}
	}
	if n != total {
		sort.Strings(missing)
		c.Report("state", "key %s has %d entries, want %d (namespaces missing: %v)", dkvx.Short([]byte(k)), n, total, missing)
	}
	c.Count("store_states_compared", 1)
	c.Count("store_entries_compared", n)
}
