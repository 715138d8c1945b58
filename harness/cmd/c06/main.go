// C06: rescaling redistributes checkpointed state completely and exclusively.
package main

import (
	"fmt"

	"reduction.dev/reduction/partitioning"
	"verif/harness/opx"
	"verif/harness/ref"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C06", Level: "exploration",
		Rule: "rescale: chains of 2-6 deployments of real Operators through the real Assembly, each restoring a checkpoint of an earlier one - in most cases the last - into 1-8 operators (more than there are groups included), with 1-20 key groups, the recorded operator checkpoints shuffled, memtables from 200 bytes to ample so that state is in memory, flushed or compacted, new processes or redeployed ones, writes before and after. The reference handler compares the state supplied for every key with the reference, probes every key after each restore, sees timers that aren't the operator's or fail to fire, and each later checkpoint is reopened and compared for the groups of its operator. assign: AssignRanges over generated ranges in any order against the overlap definition. Non-trivial: the number of operators changed while state existed.",
		Suites: []vlib.Suite{
			{Name: "rescale", Quick: 900, Thorough: 30000, Run: rescale},
			{Name: "assign", Quick: 3000, Thorough: 100000, Run: assign},
		},
		Require: []string{"states_compared", "entries_compared", "timers_fired", "due_checks", "checkpoints_reopened", "scaled_out", "scaled_in", "empty_operators", "assignments"},
	})
}

func rescale(c *vlib.Case) {
	r := c.R
	p := opx.Params{Groups: 1 + r.Intn(20), MaxBatch: 1 + r.Intn(8), TimerCache: uint64(1 + r.Intn(2000)),
		Aspects: [][]string{opx.State, opx.Owner, opx.Timers, opx.Liveness, opx.Cut}, BigValues: 60}
	if r.Intn(4) > 0 {
		p.MaxMem = 200 + r.Intn(4000)
	}
	w := opx.New(c, p)
	defer w.Close()
	var srs []string
	for i := 0; i < 1+r.Intn(3); i++ {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	var nodes []*opx.Node
	var from *opx.Ckpt
	var all []*opx.Ckpt
	id := uint64(0)
	gens := 2 + r.Intn(5)
	seq := 0
	for gen := 0; gen < gens; gen++ {
		n := 1 + r.Intn(8)
		if r.Intn(3) == 0 && gen > 0 {
			n = len(from.Ops)
		}
		// some processes are kept, redeployed
		if r.Intn(2) == 0 {
			for _, x := range nodes {
				x.Kill()
			}
			nodes = nil
		}
		r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		if len(nodes) > n {
			for _, x := range nodes[n:] {
				if r.Intn(2) == 0 {
					x.Kill()
				}
			}
			nodes = nodes[:n]
		}
		for len(nodes) < n {
			seq++
			nodes = append(nodes, w.Start(fmt.Sprint("op-", seq))...)
		}
		r.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		d := w.Deploy(nodes, srs, from)
		if from != nil {
			if n > len(from.Ops) {
				c.Count("scaled_out", 1)
			} else if n < len(from.Ops) {
				c.Count("scaled_in", 1)
			}
			d.Probe()
			c.StopIfFailed()
		}
		if n > p.Groups {
			c.Count("empty_operators", 1)
		}
		for i := 0; i < 1+r.Intn(2); i++ {
			for k := r.Intn(100); k > 0; k-- {
				switch x := r.Intn(12); {
				case x == 0 && gen+1 < gens:
					d.Advance()
				case x == 1:
					d.Flush()
				default:
					d.Tracked(srs[r.Intn(len(srs))])
				}
			}
			if r.Intn(3) == 0 {
				d.Probe()
			}
			id++
			k := d.Checkpoint(id, r.Intn(3))
			w.Contents(k)
			all = append(all, k)
			c.StopIfFailed()
		}
		if gen+1 < gens && r.Intn(2) == 0 { // to be forgotten
			for k := r.Intn(30); k > 0; k-- {
				d.Tracked(srs[r.Intn(len(srs))])
			}
			c.Count("abandoned_writes", 1)
		}
		from = all[len(all)-1]
		if r.Intn(6) == 0 {
			from = all[r.Intn(len(all))]
		}
		if gen == gens-1 {
			d.Probe()
			for i := 0; i < 3; i++ {
				d.Finish()
				d.FlushAll()
				d.Due()
				c.StopIfFailed()
			}
		}
	}
	c.NonTrivial(c.Index)
}

// assign: every old range is handed to exactly the new ranges it overlaps with.
func assign(c *vlib.Case) {
	r := c.R
	groups := 1 + r.Intn(60)
	m, n := 1+r.Intn(12), 1+r.Intn(12)
	toRanges := func(k int) (out []partitioning.KeyGroupRange) {
		for _, x := range ref.Ranges(groups, k) {
			out = append(out, partitioning.KeyGroupRange{Start: x.Start, End: x.End})
		}
		return
	}
	from, to := toRanges(m), toRanges(n)
	r.Shuffle(len(from), func(i, j int) { from[i], from[j] = from[j], from[i] })
	if r.Intn(3) == 0 && len(from) > 1 { // entries of several generations
		from = append(from, toRanges(1+r.Intn(5))...)
	}
	got := partitioning.AssignRanges(to, from)
	if len(got) != len(to) {
		c.Fail("assign", "%d assignments for %d ranges", len(got), len(to))
	}
	for i, t := range to {
		want := map[int]bool{}
		for j, f := range from {
			if f.Start < t.End && t.Start < f.End && t.Start < t.End && f.Start < f.End {
				want[j] = true
			}
		}
		seen := map[int]bool{}
		for _, j := range got[i] {
			if j < 0 || j >= len(from) || seen[j] {
				c.Fail("assign", "range %v is given %v of %v", t, got[i], from)
			}
			seen[j] = true // more than needed does no harm, operators skip what they don't own
		}
		for j := range want {
			if !seen[j] {
				c.Fail("assign", "range %v isn't given the overlapping range %v of %v", t, from[j], from)
			}
		}
		c.Count("assignments", len(got[i]))
	}
	c.NonTrivial(groups, m, n, fmt.Sprint(from))
}
