package main

import (
	"fmt"
	"maps"
	"time"

	"verif/harness/srx"
	"verif/harness/vlib"
)

// cut deploys a source runner again and again from positions that it reported for a checkpoint
// and compares them with what it had sent ahead of the barriers.
func cut(c *vlib.Case) {
	r := c.R
	in := srx.GenInput(r, 1+r.Intn(5), 20+r.Intn(150), srx.Keys(r, 1+r.Intn(20)), srx.Ordered)
	k, bounded := srx.RandomKnobs(r)
	w := srx.New(c, in, k, srx.Positions)
	next := map[int]int{}
	for s := range in.Splits {
		next[s] = 0
	}
	id := uint64(0)
	var deps []*srx.Deployment
	for last := r.Intn(4); last >= 0; last-- {
		d := w.Deploy(1+r.Intn(4), 1+r.Intn(16))
		deps = append(deps, d)
		soon, late := maps.Clone(next), map[int]int{}
		for s, n := range next {
			if r.Intn(4) == 0 {
				late[s] = n
				delete(soon, s)
			}
		}
		if len(soon) > 0 || r.Intn(2) == 0 {
			w.Assign(d, soon)
		}
		barriers := r.Intn(6)
		for i := 0; i < barriers; i++ {
			time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
			if len(late) > 0 && r.Intn(3) == 0 {
				w.Assign(d, late)
				late = nil
			}
			id++
			w.Checkpoint(id)
		}
		if len(late) > 0 {
			w.Assign(d, late)
		}
		if last > 0 {
			time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
			acks := w.Acked(d)
			if len(acks) == 0 {
				continue
			}
			maps.Copy(next, acks[r.Intn(len(acks))].States)
			c.Count("restarts_from_positions", 1)
			continue
		}
		patience := 15 * time.Second
		if !bounded {
			patience = 40 * time.Millisecond
		}
		if !w.WaitDelivered(d, barriers, patience) && bounded {
			got, b := d.Delivered()
			c.Report("unread", "only %d of %d keyed events and %d of %d barriers arrived", got, w.Expected(d), b, barriers*len(d.Ops))
		}
		w.Close()
	}
	for i, d := range deps {
		w.Check(d, i == len(deps)-1 && bounded)
	}
	c.NonTrivial(fmt.Sprint(deps[0].Ops[0].Snapshot()))
}
