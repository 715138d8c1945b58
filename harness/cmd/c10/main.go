// C10: event-time timers fire exactly once, in order, and survive recovery.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	"verif/harness/dkvx"
	"verif/harness/opx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C10", Level: "exploration",
		Rule: "The registry suite drives the real TimerRegistry and TimerStore over a real database with 1-40 key groups, caches from 0 bytes to ample, 1-4 upstreams: timers at coinciding, past, present and future times are registered (many repeatedly, also while others are firing), watermarks advance in small and large steps, the iteration is sometimes abandoned as a failing handler would, and at random points the registry is rebuilt from a checkpoint or from the live database. Every fired timer is compared with a reference set: pending, due, not before an earlier one; and after every advance nothing due is left. The ops suite runs real operators with the reference handler (timers set by events and by other timers, batches of 1-12, redeployments from checkpoints into the same number of operators) against the same oracle. The range suite does so with times before 1970 and after 2262. A case is non-trivial when timers fired.",
		Suites: []vlib.Suite{
			{Name: "registry", Quick: 20000, Thorough: 600000, Run: registry},
			{Name: "ops", Quick: 4000, Thorough: 20000, Run: ops},
			{Name: "range", Quick: 4, Thorough: 4, Run: timeRange},
		},
		Require: []string{"timers_fired", "due_checks", "restores", "repeated_sets", "cache_smaller_than_set", "deployments"},
		Assume:  []string{"timer and watermark times fit signed 64-bit nanoseconds since 1970 except in the range suite"},
	})
}

type timer struct {
	key string
	t   int64
}

type reg struct {
	c       *vlib.Case
	pending map[timer]bool
	up      map[string]int64
	srs     []string
	r       *operator.TimerRegistry
	last    int64
}

func (g *reg) eff() int64 {
	m := int64(1<<63 - 1)
	for _, s := range g.srs {
		m = min(m, g.up[s])
	}
	return m
}

func (g *reg) set(k string, t int64) {
	if g.pending[timer{k, t}] {
		g.c.Count("repeated_sets", 1)
	}
	if t > g.eff() {
		g.pending[timer{k, t}] = true
	}
	g.r.SetTimer([]byte(k), time.Unix(0, t))
}

// advance moves one upstream and checks what fires. during runs between firings.
func (g *reg) advance(sr string, t int64, limit int, during func()) {
	g.up[sr] = t
	eff := g.eff()
	n := 0
	for k, at := range g.r.AdvanceWatermark(sr, &workerpb.Watermark{Timestamp: timestamppb.New(time.Unix(0, t))}) {
		tm := timer{string(k), at.UnixNano()}
		if !g.pending[tm] {
			g.c.Fail("spurious", "timer of %s at %d fires but isn't pending", dkvx.Short(k), tm.t)
		}
		delete(g.pending, tm)
		if tm.t > eff {
			g.c.Report("early", "timer of %s at %d fires while the watermark is %d", dkvx.Short(k), tm.t, eff)
		}
		if tm.t < g.last {
			g.c.Report("order", "timer of %s at %d fires after the timer at %d", dkvx.Short(k), tm.t, g.last)
		}
		g.last = max(g.last, tm.t)
		g.c.Count("timers_fired", 1)
		if n++; n == limit {
			return
		}
		if during != nil {
			during()
		}
	}
	for tm := range g.pending {
		if tm.t <= eff {
			g.c.Report("due", "timer of %s at %d hasn't fired although the watermark is %d", dkvx.Short([]byte(tm.key)), tm.t, eff)
			break
		}
	}
	g.c.Count("due_checks", 1)
}

func registry(c *vlib.Case) {
	r := c.R
	fs := dkvx.Either(c, c.R)
	groups := 1 + r.Intn(8)
	if r.Intn(4) == 0 {
		groups = 1 + r.Intn(40)
	}
	rg := partitioning.KeyGroupRange{Start: 0, End: groups}
	n := 1 // operators: own one interval
	if r.Intn(3) == 0 {
		n = 1 + r.Intn(4)
	}
	ks := partitioning.NewKeySpace(groups, n)
	rg = ks.KeyGroupRanges()[r.Intn(n)]
	o := dkvx.Options(r, 200+r.Intn(3000))
	o.FileSystem, o.Logger = fs.At("/db"), dkvx.Quiet
	db := dkv.Open(o, nil)
	cache := uint64([]int{0, 1, 20, 60, 200, 1000, 1 << 30}[r.Intn(7)])
	if r.Intn(2) == 0 {
		cache = uint64(r.Intn(60 * groups))
	}
	var keys []string
	for tries := 0; len(keys) < 1+r.Intn(12) && tries < 2000; tries++ {
		k := fmt.Sprint("k", r.Intn(1000))
		if r.Intn(4) == 0 {
			k = []string{"", "\x00", "a", "ab", "\xff", "\xff\xff", strings.Repeat("z", 200)}[r.Intn(7)]
		}
		if rg.IncludesKeyGroup(ks.KeyGroup([]byte(k))) {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return
	}
	g := &reg{c: c, pending: map[timer]bool{}, up: map[string]int64{}}
	for i := 0; i <= r.Intn(4); i++ {
		g.srs = append(g.srs, fmt.Sprint("sr", i))
	}
	base := int64(0)
	if r.Intn(2) == 0 {
		base = int64(r.Intn(2_000_000_000)) * 1e9
	}
	span := []int64{5, 40, 1000, 1e9}[r.Intn(4)]
	switch r.Intn(4) {
	case 0:
		span = 2 << r.Intn(57) // any byte of the stored time may be the first to differ
	case 1:
		base = 1<<r.Intn(62) - r.Int63n(span) // carries
		base = max(base, 0)
	}
	const latest = 1<<63 - 1
	clamp := func(t, d int64) int64 { return t + min(d, latest-t) }
	store := func() {
		g.last = -1 << 63
		g.up = map[string]int64{}
		for _, s := range g.srs {
			g.up[s] = 0
		}
		g.r = operator.NewTimerRegistry(operator.NewTimerStore(db, ks, rg, cache), g.srs)
	}
	store()
	type saved struct {
		h       recovery.CheckpointHandle
		pending map[timer]bool
	}
	var ckpt *saved
	hi := func() int64 {
		m := base
		for _, t := range g.up {
			m = max(m, t)
		}
		return m
	}
	setSome := func(k int) {
		for i := 0; i < k; i++ {
			key := keys[r.Intn(len(keys))]
			t := clamp(hi(), r.Int63n(span))
			switch r.Intn(12) {
			case 0:
				t = hi()
			case 1:
				t = hi() - r.Int63n(span)
			case 2:
				t = clamp(hi(), 1)
			case 3, 4, 5: // again
				for tm := range g.pending {
					key, t = tm.key, tm.t
					break
				}
			}
			if t < 0 {
				t = 0
			}
			g.set(key, t)
		}
	}
	maxPending := 0
	for step := 0; step < 15+r.Intn(60); step++ {
		switch x := r.Intn(20); {
		case x < 9:
			setSome(1 + r.Intn(8))
		case x < 16:
			sr := g.srs[r.Intn(len(g.srs))]
			d := r.Int63n(span)
			switch r.Intn(6) {
			case 0:
				d = 0
			case 1:
				d = min(d, 2)
			case 2:
				d = 3 * span
			}
			t := clamp(max(base, g.up[sr]), d)
			limit := -1
			if r.Intn(20) == 0 {
				limit = 1 + r.Intn(3)
			}
			var during func()
			if r.Intn(2) == 0 {
				during = func() {
					if r.Intn(3) == 0 {
						setSome(1 + r.Intn(2))
					}
				}
			}
			if r.Intn(3) == 0 { // everyone
				for _, s := range g.srs {
					if t > g.up[s] {
						g.advance(s, t, -1, during)
					}
				}
			} else {
				g.advance(sr, t, limit, during)
			}
		case x == 16:
			h, err := db.Checkpoint(uint64(step + 1))()
			if err != nil {
				c.Fail("checkpoint", "%v", err)
			}
			ckpt = &saved{h, map[timer]bool{}}
			for tm := range g.pending {
				ckpt.pending[tm] = true
			}
		case x == 17:
			if ckpt == nil {
				break
			}
			// tasks of the closed database end without effect
			db.Close()
			var err error
			if db, err = dkvx.OpenSafe(o, []recovery.CheckpointHandle{ckpt.h}); err != nil {
				c.Fail("open", "%v", err)
			}
			g.pending = map[timer]bool{}
			for tm := range ckpt.pending {
				g.pending[tm] = true
			}
			store()
			c.Count("restores", 1)
			o.FileSystem = fs.At(fmt.Sprint("/db", step)) // the next one writes elsewhere
		case x == 18:
			store() // same database, cold cache
		}
		maxPending = max(maxPending, len(g.pending))
		c.StopIfFailed()
	}
	end := hi()
	for tm := range g.pending {
		end = max(end, tm.t)
	}
	for _, s := range g.srs {
		g.advance(s, end, -1, nil)
	}
	if len(g.pending) > 0 {
		var l []string
		for tm := range g.pending {
			l = append(l, fmt.Sprintf("%s@%d", dkvx.Short([]byte(tm.key)), tm.t))
		}
		sort.Strings(l)
		c.Fail("due", "%d timers never fire: %.300s", len(l), strings.Join(l, " "))
	}
	if uint64(maxPending*14) > cache {
		c.Count("cache_smaller_than_set", 1)
	}
	db.Close()
	c.Distinct("cache/pending", cache, maxPending)
	c.NonTrivial(c.Index)
}

func ops(c *vlib.Case) {
	r := c.R
	w := opx.New(c, opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(12), MaxMem: 200 + r.Intn(3000),
		TimerCache: uint64(1 + r.Intn(1000)), Coarse: r.Intn(2) == 0, Aspects: [][]string{opx.Timers, opx.Liveness}})
	defer w.Close()
	n := 1 + r.Intn(3)
	var srs []string
	for i := 0; i <= r.Intn(3); i++ {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	names := func(gen int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("op-%d-%d", gen, i))
		}
		return
	}
	nodes := w.Start(names(0)...)
	d := w.Deploy(nodes, srs, nil)
	var last *opx.Ckpt
	id := uint64(0)
	for gen := 1; gen <= 1+r.Intn(4); gen++ {
		for step := 0; step < 20+r.Intn(100); step++ {
			switch x := r.Intn(30); {
			case x < 15:
				d.Tracked(srs[r.Intn(len(srs))])
			case x < 25:
				d.Advance()
			case x < 28:
				d.Flush()
				if r.Intn(2) == 0 {
					d.FlushAll()
					d.Due()
				}
			case x == 28:
				id++
				last = d.Checkpoint(id, r.Intn(3))
			}
			c.StopIfFailed()
		}
		if last == nil {
			id++
			last = d.Checkpoint(id, 0)
		}
		if r.Intn(2) == 0 {
			for _, x := range nodes {
				x.Kill()
			}
			nodes = w.Start(names(gen)...)
		}
		d = w.Deploy(nodes, srs, last)
		c.Count("restores", 1)
	}
	// everything that is pending is due in the end
	for i := 0; i < 3; i++ {
		d.Finish()
		d.FlushAll()
		d.Due()
		c.StopIfFailed()
	}
	c.NonTrivial(c.Index)
}

// timeRange registers timers outside the years 1970 to 2262.
func timeRange(c *vlib.Case) {
	times := [][]time.Time{
		{time.Date(1960, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1975, 1, 1, 0, 0, 0, 0, time.UTC)},
		{time.Date(1960, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1965, 1, 1, 0, 0, 0, 0, time.UTC)},
		{time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2300, 1, 1, 0, 0, 0, 0, time.UTC)},
		{time.Date(1975, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)},
	}[c.Index]
	ks := partitioning.NewKeySpace(4, 1)
	db := dkv.Open(dkv.DBOptions{FileSystem: dkvx.NewFS().At("/db"), Logger: dkvx.Quiet}, nil)
	defer db.Close()
	r := operator.NewTimerRegistry(operator.NewTimerStore(db, ks, partitioning.KeyGroupRange{Start: 0, End: 4}, 1000), []string{"sr"})
	for range r.AdvanceWatermark("sr", &workerpb.Watermark{Timestamp: timestamppb.New(time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC))}) {
	}
	for _, t := range times {
		r.SetTimer([]byte("k"), t)
	}
	sig := "order-1970-2262"
	if c.Index < 3 {
		sig = "range"
	}
	for i, t := range times {
		var fired []string
		for _, at := range r.AdvanceWatermark("sr", &workerpb.Watermark{Timestamp: timestamppb.New(t)}) {
			fired = append(fired, at.UTC().Format(time.RFC3339))
			c.Count("timers_fired", 1)
			if len(fired) > 9 {
				break
			}
		}
		if len(fired) != 1 || fired[0] != t.Format(time.RFC3339) {
			c.Report(sig, "timers %v: watermark %v fires %v", times, times[i], fired)
			return
		}
	}
	c.NonTrivial(c.Index)
}
