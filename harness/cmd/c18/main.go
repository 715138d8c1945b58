// C18: compaction steps preserve visible contents and keep the level layout valid.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/sst"
	"verif/harness/dkvx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C18", Level: "exploration",
		Rule: "layouts: random valid level lists (2-6 levels, level-0 tables from flushes with disjoint or interleaved sequence ranges, deeper levels split into several tables, overwrites and tombstones at any depth) compacted step by step under random triggers, amplification limits, level and table sizes, with newer level-0 tables added between computing a step and applying it; after every step each key's point lookup and the scans equal the model, tables below level 0 are sorted and disjoint, and per key no deeper entry is newer. db: the same invariants on a running database whose table saves are held back at random so flushes land during compactions. Non-trivial: at least one compaction step that merged tables containing overwritten or deleted keys",
		Suites: []vlib.Suite{
			{Name: "layouts", Quick: 4000, Thorough: 60000, Run: layouts},
			{Name: "db", Quick: 400, Thorough: 6000, Run: db},
		},
		Require: []string{"compaction_steps", "major_like_steps", "minor_like_steps", "flushes_during_step", "keys_checked", "db_layouts_checked"},
	})
}

type ent struct {
	k   string
	v   string
	seq uint64
	del bool
}

func (e *ent) Key() []byte    { return []byte(e.k) }
func (e *ent) Value() []byte  { return []byte(e.v) }
func (e *ent) IsDelete() bool { return e.del }
func (e *ent) SeqNum() uint64 { return e.seq }

type world struct {
	c    *vlib.Case
	ll   *sst.LevelList
	m    map[string]*ent // newest version per key
	tw   *sst.TableWriter
	keys []string
}

func (w *world) dump() string {
	var sb strings.Builder
	for i := range w.ll.TableCounts() {
		fmt.Fprintf(&sb, "L%d:", i)
		for t := range w.ll.At(i).AllTables() {
			var e error
			sb.WriteString(" [")
			for x := range t.ScanPrefix(nil, &e) {
				d := ""
				if x.IsDelete() {
					d = "-"
				}
				fmt.Fprintf(&sb, "%s%s@%d ", d, dkvx.Short(x.Key()), x.SeqNum())
			}
			sb.WriteString("]")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// check compares the visible contents and the layout with the model.
func (w *world) check(when string) {
	c := w.c
	live := 0
	for _, k := range w.keys {
		c.Count("keys_checked", 1)
		want := w.m[k]
		g, err := w.ll.Get([]byte(k))
		if err != nil && !errors.Is(err, kv.ErrNotFound) {
			c.Fail("get-error", "%s: Get(%s): %v", when, dkvx.Short([]byte(k)), err)
		}
		got := err == nil && !g.IsDelete()
		wl := want != nil && !want.del
		if wl {
			live++
		}
		if got != wl || got && string(g.Value()) != want.v {
			gs := "absent"
			if err == nil {
				gs = fmt.Sprintf("%q@%d del=%v", g.Value(), g.SeqNum(), g.IsDelete())
			}
			c.Fail("get", "%s: Get(%s) = %s, newest write %+v\n%s", when, dkvx.Short([]byte(k)), gs, want, w.dump())
		}
	}
	var serr error
	n := 0
	prev := ""
	for e := range w.ll.ScanPrefix(nil, &serr) {
		k := string(e.Key())
		if n > 0 && k <= prev {
			c.Fail("scan", "%s: scan yields %s after %s\n%s", when, dkvx.Short(e.Key()), dkvx.Short([]byte(prev)), w.dump())
		}
		prev = k
		want := w.m[k]
		if want == nil || want.del || e.IsDelete() || string(e.Value()) != want.v {
			c.Fail("scan", "%s: scan yields %s = %q@%d, newest write %+v\n%s", when, dkvx.Short(e.Key()), e.Value(), e.SeqNum(), want, w.dump())
		}
		n++
	}
	if serr != nil || n != live {
		c.Fail("scan", "%s: scan yields %d of %d live keys, err %v\n%s", when, n, live, serr, w.dump())
	}
	if p := w.keys[c.R.Intn(len(w.keys))]; len(p) > 0 {
		p = p[:1+c.R.Intn(len(p))]
		want := 0
		for k, e := range w.m {
			if !e.del && strings.HasPrefix(k, p) {
				want++
			}
		}
		n := 0
		for e := range w.ll.ScanPrefix([]byte(p), &serr) {
			if x := w.m[string(e.Key())]; x == nil || x.v != string(e.Value()) {
				c.Fail("scan", "%s: ScanPrefix(%s) yields %s = %q, newest write %+v\n%s", when, dkvx.Short([]byte(p)), dkvx.Short(e.Key()), e.Value(), x, w.dump())
			}
			n++
		}
		if n != want || serr != nil {
			c.Fail("scan", "%s: ScanPrefix(%s) yields %d of %d keys, err %v\n%s", when, dkvx.Short([]byte(p)), n, want, serr, w.dump())
		}
	}
	checkLayout(c, when, w.ll, w.dump)
}

// checkLayout: tables below level 0 sorted and disjoint, deeper entries older per key.
func checkLayout(c *vlib.Case, when string, ll *sst.LevelList, dump func() string) {
	oldest := map[string]uint64{} // smallest sequence number per key in shallower levels
	for i := range ll.TableCounts() {
		lvl := map[string][]uint64{}
		last := ""
		first := true
		for t := range ll.At(i).AllTables() {
			var e error
			n := 0
			tk := ""
			for x := range t.ScanPrefix(nil, &e) {
				k := string(x.Key())
				if n > 0 && k <= tk {
					c.Fail("layout", "%s: unsorted table in level %d\n%s", when, i, dump())
				}
				tk = k
				if i > 0 {
					if !first && k <= last {
						c.Fail("layout", "%s: tables of level %d are unsorted or overlap at key %s\n%s", when, i, dkvx.Short([]byte(k)), dump())
					}
					last, first = k, false
				}
				lvl[k] = append(lvl[k], x.SeqNum())
				n++
			}
			if e != nil {
				c.Fail("layout", "%s: level %d: reading a table: %v", when, i, e)
			}
		}
		for k, ss := range lvl {
			mx, mn := slices.Max(ss), slices.Min(ss)
			if o, ok := oldest[k]; ok {
				if mx > o {
					c.Fail("layout-age", "%s: key %s has sequence number %d in level %d beneath %d in a shallower level\n%s", when, dkvx.Short([]byte(k)), mx, i, o, dump())
				}
				mn = min(mn, o)
			}
			oldest[k] = mn
		}
	}
}

func mkKeys(r interface{ Intn(int) int }) []string {
	n := 1 + r.Intn(24)
	m := map[string]bool{}
	al := "\x00ab\x7f\x80\xff"
	for i := 0; i < n; i++ {
		k := ""
		for j := r.Intn(4); j >= 0; j-- {
			k += string(al[r.Intn(len(al))])
		}
		m[k] = true
	}
	if r.Intn(3) == 0 {
		m[""] = true
	}
	if r.Intn(5) == 0 {
		for i := 0; i < 1+r.Intn(4); i++ {
			k := strings.Repeat("k", dkvx.LongLen(r))
			m[k], m[k+string(al[r.Intn(len(al))])] = true, true
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func toEntries(es []*ent) []kv.Entry {
	slices.SortFunc(es, func(a, b *ent) int { return bytes.Compare([]byte(a.k), []byte(b.k)) })
	out := make([]kv.Entry, len(es))
	for i, e := range es {
		out[i] = e
	}
	return out
}

func layouts(c *vlib.Case) {
	r := c.R
	fs := dkvx.NewFS()
	tw := sst.NewTableWriter(fs, 0)
	nl := 2 + r.Intn(5)
	keys := mkKeys(r)
	w := &world{c: c, m: map[string]*ent{}, tw: tw, keys: keys}
	interleaved := r.Intn(4) == 0
	delPct := r.Intn(60)
	var seq uint64
	mk := func(k string) *ent {
		seq++
		e := &ent{k: k, seq: seq, del: r.Intn(100) < delPct}
		if !e.del {
			e.v = fmt.Sprintf("v%d%s", seq, strings.Repeat("x", r.Intn(12)*r.Intn(12)))
		}
		return e
	}
	// build from the deepest level up; every level is newer than the ones beneath
	levels := make([][]*sst.Table, nl)
	over := 0
	put := func(e *ent) {
		if w.m[e.k] != nil {
			over++
		}
		if o := w.m[e.k]; o == nil || o.seq < e.seq {
			w.m[e.k] = e
		}
	}
	for l := nl - 1; l >= 1; l-- {
		if r.Intn(4) == 0 {
			continue
		}
		var es []*ent
		for _, k := range keys {
			if r.Intn(2) == 0 {
				es = append(es, &ent{k: k})
			}
		}
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		for i, e := range es {
			es[i] = mk(e.k)
			put(es[i])
		}
		if len(es) == 0 {
			continue
		}
		ts, err := tw.WriteRun(slices.Values(toEntries(es)), uint64(1+r.Intn(400)))
		if err != nil {
			c.Fail("write", "%v", err)
		}
		levels[l] = ts
	}
	n0 := r.Intn(6)
	var l0 [][]*ent
	for i := 0; i < n0; i++ {
		var es []*ent
		for _, k := range keys {
			if r.Intn(3) == 0 {
				es = append(es, &ent{k: k})
			}
		}
		if len(es) == 0 {
			es = append(es, &ent{k: keys[r.Intn(len(keys))]})
		}
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		l0 = append(l0, es)
	}
	if interleaved {
		// tables of several instances: sequence numbers interleave between tables
		type ref struct{ t, i int }
		var refs []ref
		for t := range l0 {
			for i := range l0[t] {
				refs = append(refs, ref{t, i})
			}
		}
		r.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
		for _, x := range refs {
			e := mk(l0[x.t][x.i].k)
			l0[x.t][x.i] = e
			put(e)
		}
	} else {
		for t := range l0 {
			for i := range l0[t] {
				e := mk(l0[t][i].k)
				l0[t][i] = e
				put(e)
			}
		}
	}
	for _, es := range l0 {
		t, err := tw.Write(slices.Values(toEntries(es)))
		if err != nil {
			c.Fail("write", "%v", err)
		}
		levels[0] = append(levels[0], t)
	}
	w.ll = sst.NewLevelListOfTables(levels)
	comp := &sst.Compactor{
		L0RunNumCompactionTrigger:   1 + r.Intn(4),
		MaxSizeAmplificationPercent: []int{0, 20, 50, 100, 300, math.MaxInt}[r.Intn(6)],
		SmallestLevelSize:           int64(r.Intn(1500)),
		LevelSizeMultiplier:         1 + r.Intn(10),
		TableWriter:                 tw,
		TargetTableSize:             int64(1 + r.Intn(600)),
	}
	c.Trace("compactor l0=%d amp=%d smallest=%d target=%d interleaved=%v\n%s", comp.L0RunNumCompactionTrigger, comp.MaxSizeAmplificationPercent, comp.SmallestLevelSize, comp.TargetTableSize, interleaved, w.dump())
	w.check("initial layout")
	start := fmt.Sprint(w.ll.TableCounts())
	steps := 0
	for idle := 0; steps < 25 && idle < 3; {
		snap := w.ll
		cs, err := comp.Compact(snap)
		if err != nil {
			c.Fail("compact", "step %d: %v", steps, err)
		}
		// flushes land while the step runs
		for f := r.Intn(3); f > 0 && steps < 8; f-- {
			var es []*ent
			for _, k := range keys {
				if r.Intn(4) == 0 {
					es = append(es, &ent{k: k})
				}
			}
			if len(es) == 0 {
				continue
			}
			r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
			for i := range es {
				es[i] = mk(es[i].k)
				put(es[i])
			}
			t, err := tw.Write(slices.Values(toEntries(es)))
			if err != nil {
				c.Fail("write", "%v", err)
			}
			fcs := &sst.ChangeSet{}
			fcs.AddTables(0, t)
			w.ll = w.ll.NewWithChangeSet(fcs)
			if cs != nil {
				c.Count("flushes_during_step", 1)
			}
			w.check("after a flush")
		}
		if cs == nil {
			idle++
			steps++
			continue
		}
		idle = 0
		before := w.ll.TableCounts()
		w.ll = w.ll.NewWithChangeSet(cs)
		after := w.ll.TableCounts()
		steps++
		c.Count("compaction_steps", 1)
		if after[nl-1] != before[nl-1] {
			c.Count("major_like_steps", 1)
		} else {
			c.Count("minor_like_steps", 1)
		}
		c.Trace("step %d: %v -> %v", steps, before, after)
		c.Distinct("layout_transitions", before, after)
		w.check(fmt.Sprintf("after compaction step %d (%v -> %v)", steps, before, after))
		if over > 0 {
			c.NonTrivial(start, before, after, over)
		}
		runtime.KeepAlive(snap)
	}
	c.Sample("%d levels, tables %s -> %v in %d steps, %d overwrites, %d keys", nl, start, w.ll.TableCounts(), steps, over, len(keys))
}

func db(c *vlib.Case) {
	r := c.R
	fs := dkvx.NewFS()
	m := dkvx.Ref{}
	keys := dkvx.Keys(r)
	o := dkv.DBOptions{
		FileSystem:                  fs,
		MemTableSize:                uint64(40 + r.Intn(300)),
		TargetFileSize:              uint64(40 + r.Intn(800)),
		MaxWALSize:                  1 << 20,
		L0TableNumCompactionTrigger: 1 + r.Intn(5),
	}
	// hold some table saves until a few others have happened (or a short time passed)
	var mu sync.Mutex
	saves := 0
	holdMod := 2 + r.Intn(5)
	holdFor := 1 + r.Intn(3)
	overtaken := 0
	fs.OnSave(func(p string) error {
		if !strings.HasSuffix(p, ".sst") {
			return nil
		}
		mu.Lock()
		saves++
		me := saves
		mu.Unlock()
		if me%holdMod != 0 {
			return nil
		}
		for t0 := time.Now(); me < 60*holdMod && time.Since(t0) < 2*time.Millisecond; {
			time.Sleep(20 * time.Microsecond)
			mu.Lock()
			past := saves - me
			mu.Unlock()
			if past >= holdFor {
				mu.Lock()
				overtaken++
				mu.Unlock()
				return nil
			}
		}
		return nil
	})
	d := dkv.Open(o, nil)
	seq := 0
	check := func(k []byte) {
		if err := dkvx.CheckGet(d, m, k); err != nil {
			c.Fail("get", "%v\n%s", err, d.Diagnostics())
		}
	}
	for i, n := 0, 100+r.Intn(400); i < n; i++ {
		k := keys[r.Intn(len(keys))]
		if r.Intn(4) == 0 {
			d.Delete(k)
			delete(m, string(k))
		} else {
			seq++
			v := fmt.Sprint(seq, strings.Repeat("y", r.Intn(20)))
			d.Put(k, []byte(v))
			m[string(k)] = v
		}
		if i%9 == 0 {
			check(keys[r.Intn(len(keys))])
		}
		if r.Intn(80) == 0 {
			dkvx.Wait(d)
		}
	}
	if err := dkvx.Wait(d); err != nil {
		c.Fail("task", "%v", err)
	}
	for _, k := range keys {
		check(k)
	}
	if _, err := dkvx.CheckScan(d, m, nil); err != nil {
		c.Fail("scan", "%v\n%s", err, d.Diagnostics())
	}
	h, err := d.Checkpoint(1)()
	if err != nil {
		c.Fail("checkpoint", "%v", err)
	}
	cl, err := recovery.LoadCheckpointList(fs, noDelete{}, []recovery.CheckpointHandle{h})
	if err != nil {
		c.Fail("checkpoint", "%v", err)
	}
	ll := cl.Latest().Levels
	checkLayout(c, "database after the last compaction", ll, func() string { return d.Diagnostics() })
	c.Count("db_layouts_checked", 1)
	c.Count("db_held_saves_overtaken", overtaken)
	c.Distinct("db_layouts", ll.TableCounts())
	if ll.TableCounts()[0] < saves {
		c.NonTrivial(fmt.Sprint(ll.TableCounts()), saves, overtaken)
	}
	c.Sample("%d table saves, %d held saves overtaken by others, final tables %v", saves, overtaken, ll.TableCounts())
	runtime.KeepAlive(d)
}

type noDelete struct{}

func (noDelete) OwnsKey([]byte) bool { return true }
func (noDelete) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) {
	return false, nil
}
