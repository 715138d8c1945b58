package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/snapshots"
	"verif/harness/dkvx"
	"verif/harness/opx"
	"verif/harness/vlib"
)

type splitter struct {
	connectors.UnimplementedSourceSplitter
	n int
}

func (s *splitter) Checkpoint() []byte { return fmt.Append(nil, "splitter ", s.n) }

func splitterState(b []byte) int {
	n := -1
	fmt.Sscanf(string(b), "splitter %d", &n)
	return n
}

// save is the reference of a completed checkpoint.
type save struct {
	id       uint64
	k        *opx.Ckpt
	splits   []string
	splitter [2]int // its state is one of those from the checkpoint's start to its last acknowledgement
	uri      string
}

type rig struct {
	c        *vlib.Case
	w        *opx.World
	be       backend
	loc      *proc
	store    *snapshots.Store
	errs     chan error
	retained chan []uint64
	sp       *splitter
	d        *opx.Dep
	asked    map[uint64]bool  // savepoints requested of this process
	done     map[uint64]*save // checkpoints completed by this process
	saves    map[uint64]*save // savepoints of all processes
	last     *save
	n        int
}

func (g *rig) ops(k *snapshotpb.JobCheckpoint) string {
	var l []string
	for _, o := range k.GetOperatorCheckpoints() {
		l = append(l, fmt.Sprint(o.OperatorId, o.KeyGroupRange, o.CheckpointId))
	}
	slices.Sort(l)
	return strings.Join(l, ";")
}

// open starts the job's process and compares what it restores with the reference.
func (g *rig) open(from *save, uri string) *opx.Ckpt {
	c := g.c
	g.loc = &proc{StorageLocation: g.be.Mount()}
	g.errs, g.retained = make(chan error, 1000), make(chan []uint64)
	g.store = snapshots.NewStore(&snapshots.NewStoreParams{SavepointURI: uri, FileStore: g.loc, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints", ErrChan: g.errs, RetainedCheckpointsUpdated: g.retained})
	g.asked, g.done, g.last = map[uint64]bool{}, map[uint64]*save{}, nil
	if err := g.load(); err != nil {
		c.Fail("load", "starting from %q: %v", uri, err)
	}
	k := g.store.CurrentCheckpoint()
	if from == nil {
		if k != nil {
			c.Fail("load", "a new job starts from checkpoint %d", k.Id)
		}
		return nil
	}
	if k == nil || k.Id != from.id {
		c.Fail("load", "starting from %q of checkpoint %d, the job uses %v", uri, from.id, k)
	}
	if got, want := g.ops(k), g.ops(&snapshotpb.JobCheckpoint{OperatorCheckpoints: from.k.Ops}); got != want {
		c.Fail("load", "starting from %q of checkpoint %d with the operators %s, restored %s", uri, from.id, want, got)
	}
	var splits []string
	for _, s := range k.SourceCheckpoints {
		for _, x := range s.SplitStates {
			splits = append(splits, string(x))
		}
	}
	slices.Sort(splits)
	if len(k.SourceCheckpoints) != 1 || !slices.Equal(splits, from.splits) || splitterState(k.SourceCheckpoints[0].SplitterState) < from.splitter[0] || splitterState(k.SourceCheckpoints[0].SplitterState) > from.splitter[1] {
		c.Report("positions", "starting from %q of checkpoint %d with the source positions %q and splitter of %v, restored %v", uri, from.id, from.splits, from.splitter, k.SourceCheckpoints)
	}
	c.Count("positions_compared", 1+len(splits))
	g.last = from
	return &opx.Ckpt{ID: k.Id, Ops: k.OperatorCheckpoints, Shadow: from.k.Shadow}
}

func (g *rig) load() (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return g.store.LoadCheckpoint()
}

// ask requests a savepoint while checkpoint id (0: none) is in progress.
func (g *rig) ask(id uint64, srs []string) uint64 {
	c := g.c
	got, created, err := g.store.CreateSavepoint(names(g.d), srs)
	switch {
	case id == 0:
		if err != nil || !created {
			c.Fail("request", "requesting a savepoint with nothing in progress: id %d, started %v, %v", got, created, err)
		}
		g.asked[got] = true
		return got
	case g.asked[id]:
		if err == nil && (created || got != id) {
			c.Report("second", "a savepoint requested while savepoint %d is in progress: id %d, started %v", id, got, created)
		}
	default:
		if err != nil || created || got != id {
			c.Report("fold", "a savepoint requested while checkpoint %d is in progress: id %d, started %v, %v", id, got, created, err)
		} else {
			g.asked[id] = true
			c.Count("savepoints_folded", 1)
		}
	}
	c.Count("mid_checkpoint_requests", 1)
	return id
}

func names(d *opx.Dep) (l []string) {
	for _, n := range d.Nodes {
		l = append(l, n.Name)
	}
	return
}

func (g *rig) drain() {
	for {
		select {
		case ids := <-g.retained:
			if err := g.d.Retain(ids...); err != nil {
				g.c.Report("disturbed", "operators can't retain only %v: %v", ids, err)
			}
		case err := <-g.errs:
			g.c.Report("disturbed", "the job is told of the failure: %v", err)
		default:
			return
		}
		g.c.StopIfFailed()
	}
}

// checkpoint takes one, or a savepoint, from start to its last acknowledgement.
func (g *rig) checkpoint(srs []string) {
	c, r := g.c, g.c.R
	var id uint64
	step := func() {
		g.n++
		g.sp.n = g.n
	}
	step()
	first := g.n
	if r.Intn(3) == 0 {
		id = g.ask(0, srs)
	} else {
		var err error
		if id, err = g.store.CreateCheckpoint(names(g.d), srs); err != nil {
			c.Fail("disturbed", "starting a checkpoint with none in progress: %v", err)
		}
	}
	maybe := func(n int) {
		if r.Intn(n) == 0 {
			g.ask(id, srs)
		}
	}
	maybe(8)
	k := g.d.Checkpoint(id, r.Intn(3))
	maybe(8)
	s := &save{id: id, k: k, splitter: [2]int{first}}
	var acks []func() error
	for _, o := range k.Ops {
		o := proto.Clone(o).(*snapshotpb.OperatorCheckpoint)
		acks = append(acks, func() error { return g.store.AddOperatorSnapshot(o) })
	}
	for _, sr := range srs {
		a := &jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: sr}
		for i := r.Intn(3); i > 0; i-- {
			g.n++
			p := fmt.Sprint(sr, "@", g.n)
			a.SplitStates = append(a.SplitStates, []byte(p))
			s.splits = append(s.splits, p)
		}
		acks = append(acks, func() error { return g.store.AddSourceSnapshot(a) })
	}
	slices.Sort(s.splits)
	r.Shuffle(len(acks), func(i, j int) { acks[i], acks[j] = acks[j], acks[i] })
	for i, f := range acks {
		if i > 0 && r.Intn(3) == 0 { // life goes on
			g.events(r.Intn(20), srs)
		}
		maybe(12)
		if r.Intn(2) == 0 {
			step()
		}
		s.splitter[1] = g.sp.n
		if err := f(); err != nil {
			c.Fail("disturbed", "an acknowledgement of checkpoint %d: %v", id, err)
		}
	}
	g.done[id], g.last = s, s
	c.Trace("checkpoint %d complete, savepoint %v", id, g.asked[id])
}

func (g *rig) events(n int, srs []string) {
	r := g.c.R
	for ; n > 0; n-- {
		switch x := r.Intn(14); {
		case x == 0:
			g.d.Advance()
		case x == 1:
			g.d.Flush()
		default:
			g.d.Tracked(srs[r.Intn(len(srs))])
		}
	}
}

// wait gives up when the process does nothing in its storage any more; copying files is slow
// where the disk or the machine is.
func (g *rig) wait(cond func() bool) bool {
	for {
		n := g.loc.done.Load()
		if dkvx.Settle(20*time.Second, func() bool { g.drain(); return cond() }) {
			return true
		}
		if g.loc.done.Load() == n {
			return false
		}
	}
}

// quiet waits for the storage work and finds the savepoints.
func (g *rig) quiet() {
	c := g.c
	g.loc.gate(false)
	for id, s := range g.done {
		if !g.asked[id] {
			continue
		}
		ok := g.wait(func() bool {
			var err error
			if s.uri, err = g.store.SavepointURIForID(id); err != nil {
				return false
			}
			k, err := g.store.SnapshotForURI(s.uri)
			return err == nil && g.ops(k) == g.ops(&snapshotpb.JobCheckpoint{OperatorCheckpoints: s.k.Ops}) // not one of an earlier process
		})
		if !ok {
			c.Fail("no-savepoint", "savepoint %d is complete but there's no file of it", id)
		}
		g.saves[id] = s
		c.Count("savepoints", 1)
	}
	if g.last != nil && !g.wait(func() bool { return g.store.CurrentCheckpoint().GetId() == g.last.id }) {
		c.Fail("disturbed", "checkpoint %d is complete but not published", g.last.id)
	}
}

// restore runs a job through several processes, the later ones start from savepoints.
func restore(c *vlib.Case, be backend) {
	defer be.Close()
	r := c.R
	g := &rig{c: c, be: be, saves: map[uint64]*save{}}
	l := &life{}
	p := opx.Params{Groups: 1 + r.Intn(12), MaxBatch: 1 + r.Intn(8), TimerCache: uint64(1 + r.Intn(2000)), Location: be.Working(),
		Aspects: [][]string{opx.State, opx.Timers, opx.Owner, opx.Liveness, opx.Cut}, BigValues: 60,
		FileSystem: func(loc string) storage.FileSystem { return &files{be.FileSystem(loc), l} }}
	if r.Intn(5) > 0 {
		p.MaxMem = 200 + r.Intn(4000)
	}
	_, disk := be.(*local)
	if disk {
		p.MaxMem = 6000 + r.Intn(8000) // fewer files, those are slow
	}
	w := opx.New(c, p)
	g.w = w
	defer w.Close()
	mem, _ := be.(*memory)
	if mem != nil {
		w.FS = mem.fs
	}
	var srs []string
	for i := 0; i < 1+r.Intn(2); i++ {
		srs = append(srs, fmt.Sprint("sr-", i))
	}
	var from *save
	uri := ""
	seq, before := 0, 0
	gens := 2 + r.Intn(3)
	if disk {
		gens = min(gens, 3)
	}
	for gen := 0; gen < gens; gen++ {
		k := g.open(from, uri)
		g.sp = &splitter{}
		g.store.RegisterSourceSplitter(g.sp)
		n := 1 + r.Intn(4)
		var nodes []*opx.Node
		for i := 0; i < n; i++ {
			seq++
			nodes = append(nodes, w.Start(fmt.Sprint("op-", seq))...)
		}
		g.d = w.Deploy(nodes, srs, k)
		if k != nil {
			if n > before {
				c.Count("scaled_out", 1)
			} else if n < before {
				c.Count("scaled_in", 1)
			}
			if r.Intn(2) == 0 {
				g.d.Probe()
			}
			c.StopIfFailed()
		}
		gated := r.Intn(2) == 0
		steps := 2 + r.Intn(8)
		if disk {
			steps = 2 + r.Intn(3)
		}
		for i := 0; i < steps; i++ {
			g.loc.gate(gated && r.Intn(4) > 0)
			g.events(r.Intn(60), srs)
			if i < steps-1 || len(g.saves) == 0 && len(g.asked) == 0 {
				g.checkpoint(srs)
				if gen > 0 && g.asked[g.last.id] {
					c.Count("second_generation_savepoints", 1)
				}
			}
			for j := r.Intn(8); j > 0; j-- {
				time.Sleep(30 * time.Microsecond)
				if n := g.loc.waiting(); n > 0 {
					g.loc.release(r.Intn(n))
					c.Count("held_operations", 1)
				}
				g.drain()
			}
			if r.Intn(4) == 0 {
				dkvx.GC()
			}
			c.StopIfFailed()
		}
		g.quiet()
		if r.Intn(3) == 0 {
			g.d.Probe()
		}
		if mem != nil && g.last != nil && g.done[g.last.id] != nil {
			w.Contents(g.last.k) // not disturbed
		}
		c.StopIfFailed()
		before = n
		// the end of the process and of its operators
		for _, n := range nodes {
			n.Kill()
		}
		g.loc.crash()
		l.end()
		l = &life{}
		var ids []uint64
		for id := range g.saves {
			ids = append(ids, id)
		}
		slices.Sort(ids)
		x := r.Intn(4)
		if len(ids) == 0 || g.last == nil {
			x = 0
			if g.last == nil {
				c.Fail("setup", "no checkpoint")
			}
		}
		if x == 0 {
			from, uri = g.last, ""
			c.Count("restored_checkpoint", 1)
			continue
		}
		from = g.saves[ids[r.Intn(len(ids))]]
		uri = from.uri
		if x == 1 {
			c.Count("restored_in_place", 1)
		} else {
			be.Wipe()
			c.Count("wipes", 1)
			c.Count("restored_after_wipe", 1)
		}
		c.Count("starts_from_savepoint", 1)
		c.NonTrivial(c.Index, gen)
		c.Trace("restart from savepoint %d", from.id)
	}
	k := g.open(from, uri)
	var nodes []*opx.Node
	for i := 1 + r.Intn(4); i > 0; i-- {
		seq++
		nodes = append(nodes, w.Start(fmt.Sprint("op-", seq))...)
	}
	g.d = w.Deploy(nodes, srs, k)
	g.d.Probe()
	c.StopIfFailed()
	for i := 0; i < 2; i++ {
		g.d.Finish()
		g.d.FlushAll()
		g.d.Due()
		c.StopIfFailed()
	}
	l.end()
}
