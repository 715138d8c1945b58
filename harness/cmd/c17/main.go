// C17: SST tables, bloom filters and write-ahead logs read back exactly what was written.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"iter"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"sort"

	"reduction.dev/reduction/dkv/bloom"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/sst"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/dkv/wal"
	"verif/harness/dkvx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C17", Level: "exploration",
		Rule: "random key-ordered runs (puts, tombstones, empty/binary/huge keys and values, counts straddling the index spacing, arbitrary sequence numbers) written with TableWriter.Write and WriteRun to memory and local files; every entry, gaps between entries and keys outside the range are looked up, every prefix of some key is scanned, on the fresh table and after re-opening from the JSON-serialised descriptor; WAL op sequences with cuts, truncations, rotations and saves replayed from the handle; bloom filters of many sizes. Non-trivial: at least two index blocks or a tombstone or a split run (tables), at least one rotation or truncation and a start marker inside the log (WAL)",
		Suites: []vlib.Suite{
			{Name: "table", Quick: 1500, Thorough: 20000, Run: table},
			{Name: "run", Quick: 1500, Thorough: 20000, Run: run},
			{Name: "bigtable", Quick: 16, Thorough: 200, Run: bigTable},
			{Name: "bloom", Quick: 400, Thorough: 4000, Run: bloomFilter},
			{Name: "wal", Quick: 2500, Thorough: 40000, Run: walLog},
		},
		Require: []string{"tables", "table_gets", "absent_gets", "prefix_scans", "reopened", "run_tables", "wal_replayed_ops", "wal_truncations", "bloom_probes"},
	})
}

type ent struct {
	k, v []byte
	seq  uint64
	del  bool
}

func (e *ent) Key() []byte    { return e.k }
func (e *ent) Value() []byte  { return e.v }
func (e *ent) IsDelete() bool { return e.del }
func (e *ent) SeqNum() uint64 { return e.seq }

func (e *ent) String() string {
	if e.del {
		return fmt.Sprintf("%x@%d DEL", short(e.k), e.seq)
	}
	return fmt.Sprintf("%x@%d=%x(%d)", short(e.k), e.seq, short(e.v), len(e.v))
}

func short(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

var parts = [][]byte{{0}, {0xff}, []byte("a"), []byte("b"), {0, 0}, {0xff, 0xff}, {1}, []byte("key"), {0x7f}, {0x80}, {0xc3, 0x28}, []byte("é"), {0, 0, 0, 1}}

func rkey(r *rand.Rand, style int) []byte {
	switch style {
	case 0:
		n := r.Intn(5)
		k := []byte{}
		for i := 0; i < n; i++ {
			k = append(k, parts[r.Intn(len(parts))]...)
		}
		return k
	case 1:
		return []byte(fmt.Sprintf("key-%05d", r.Intn(2000)))
	case 2:
		k := make([]byte, r.Intn(9))
		r.Read(k)
		return k
	default: // long shared prefixes
		n := r.Intn(40)
		if r.Intn(4) == 0 {
			n = dkvx.LongLen(r)
		}
		k := bytes.Repeat([]byte{byte('a' + r.Intn(2))}, n)
		return append(k, byte(r.Intn(4)))
	}
}

func rval(r *rand.Rand, big int) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		v := make([]byte, r.Intn(big+1))
		r.Read(v)
		return v
	case 2:
		return bytes.Repeat([]byte{0}, r.Intn(20))
	default:
		v := make([]byte, r.Intn(24))
		r.Read(v)
		return v
	}
}

// genRun returns n distinct keys in order with distinct sequence numbers in random order.
func genRun(r *rand.Rand, n, big int) []kv.Entry {
	style := r.Intn(4)
	tomb := []int{0, 10, 50, 100}[r.Intn(4)]
	m := map[string]bool{}
	for tries := 0; len(m) < n && tries < 10*n+50; tries++ {
		m[string(rkey(r, style))] = true
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	base := uint64(r.Intn(1000))
	if r.Intn(10) == 0 {
		base = 1 << 62
	}
	perm := r.Perm(len(keys))
	out := make([]kv.Entry, len(keys))
	for i, k := range keys {
		e := &ent{k: []byte(k), seq: base + uint64(perm[i]) + 1}
		if r.Intn(100) < tomb {
			e.del = true
		} else {
			e.v = rval(r, big)
		}
		out[i] = e
	}
	return out
}

func same(a, b kv.Entry) bool {
	return bytes.Equal(a.Key(), b.Key()) && a.IsDelete() == b.IsDelete() && a.SeqNum() == b.SeqNum() && (a.IsDelete() || bytes.Equal(a.Value(), b.Value()))
}

func str(e kv.Entry) string {
	if e == nil {
		return "nil"
	}
	return (&ent{e.Key(), e.Value(), e.SeqNum(), e.IsDelete()}).String()
}

// fsFor gives a memory filesystem or a local one below a scratch directory.
func fsFor(c *vlib.Case) (storage.FileSystem, func()) {
	if c.R.Intn(3) > 0 {
		return storage.NewMemoryFilesystem(), func() {}
	}
	d, err := os.MkdirTemp("", "c17")
	if err != nil {
		panic(err)
	}
	return storage.NewLocalFilesystem(d), func() { os.RemoveAll(d) }
}

type ownAll struct{}

func (ownAll) OwnsKey([]byte) bool { return true }
func (ownAll) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) {
	return false, nil
}

// reopen makes the table a checkpoint document would give.
func reopen(c *vlib.Case, fs storage.FileSystem, t *sst.Table) *sst.Table {
	b, err := json.Marshal(t.Document())
	if err != nil {
		c.Fail("descriptor", "marshal: %v", err)
	}
	var d sst.TableDocument
	if err := json.Unmarshal(b, &d); err != nil {
		c.Fail("descriptor", "unmarshal %s: %v", b, err)
	}
	c.Count("reopened", 1)
	return sst.NewTableFromDocument(fs, ownAll{}, d)
}

func checkGet(c *vlib.Case, what string, t *sst.Table, e kv.Entry) {
	c.Count("table_gets", 1)
	g, err := t.Get(e.Key())
	if err != nil {
		c.Fail("get-present", "%s: Get(%x) of a written entry %s: error %v", what, short(e.Key()), str(e), err)
	}
	if !same(g, e) {
		c.Fail("get-present", "%s: Get(%x) = %s, written %s", what, short(e.Key()), str(g), str(e))
	}
}

func checkAbsent(c *vlib.Case, what string, t *sst.Table, k []byte) {
	c.Count("absent_gets", 1)
	g, err := t.Get(k)
	if !errors.Is(err, kv.ErrNotFound) {
		c.Fail("get-absent", "%s: Get(%x) of a key that was never written = %s, %v", what, short(k), str(g), err)
	}
}

func checkScan(c *vlib.Case, what string, t *sst.Table, run []kv.Entry, prefix []byte) {
	c.Count("prefix_scans", 1)
	var want []kv.Entry
	for _, e := range run {
		if bytes.HasPrefix(e.Key(), prefix) {
			want = append(want, e)
		}
	}
	var serr error
	i := 0
	for g := range t.ScanPrefix(prefix, &serr) {
		if i >= len(want) {
			c.Fail("scan", "%s: ScanPrefix(%x) yields extra %s after %d entries", what, short(prefix), str(g), i)
		}
		if !same(g, want[i]) {
			c.Fail("scan", "%s: ScanPrefix(%x) entry %d = %s, want %s", what, short(prefix), i, str(g), str(want[i]))
		}
		i++
	}
	if serr != nil {
		c.Fail("scan", "%s: ScanPrefix(%x): %v", what, short(prefix), serr)
	}
	if i != len(want) {
		c.Fail("scan", "%s: ScanPrefix(%x) yields %d of %d entries", what, short(prefix), i, len(want))
	}
	// an abandoned scan must not disturb later reads
	if len(want) > 1 && c.R.Intn(4) == 0 {
		for range t.ScanPrefix(prefix, &serr) {
			break
		}
	}
}

func prefixesOf(r *rand.Rand, run []kv.Entry, n int) [][]byte {
	ps := [][]byte{nil, {0xff}, []byte("zzzz")}
	for i := 0; i < n && len(run) > 0; i++ {
		k := run[r.Intn(len(run))].Key()
		p := k[:r.Intn(len(k)+1)]
		ps = append(ps, append([]byte{}, p...))
		if r.Intn(3) == 0 {
			ps = append(ps, append(append([]byte{}, k...), 0))
		}
	}
	return ps
}

func absentKeys(r *rand.Rand, run []kv.Entry, n int) [][]byte {
	in := map[string]bool{}
	for _, e := range run {
		in[string(e.Key())] = true
	}
	var out [][]byte
	add := func(k []byte) {
		if !in[string(k)] {
			out = append(out, k)
		}
	}
	add(nil)
	add(bytes.Repeat([]byte{0xff}, 50))
	for i := 0; i < n && len(run) > 0; i++ {
		k := run[r.Intn(len(run))].Key()
		add(append(append([]byte{}, k...), 0))
		if len(k) > 0 {
			add(append([]byte{}, k[:len(k)-1]...))
		}
		add(rkey(r, r.Intn(4)))
	}
	return out
}

// checkTable compares everything readable from t with the run it was written from.
func checkTable(c *vlib.Case, what string, t *sst.Table, run []kv.Entry, sample int) {
	r := c.R
	idx := r.Perm(len(run))
	if len(idx) > sample {
		// always include the entries around index block boundaries
		idx = idx[:sample]
		for i := 0; i < len(run); i += 16 {
			if r.Intn(3) == 0 {
				idx = append(idx, i)
				if i > 0 {
					idx = append(idx, i-1)
				}
			}
		}
		idx = append(idx, 0, len(run)-1)
	}
	for _, i := range idx {
		checkGet(c, what, t, run[i])
	}
	for _, k := range absentKeys(r, run, 12) {
		checkAbsent(c, what, t, k)
	}
	for _, p := range prefixesOf(r, run, 6) {
		checkScan(c, what, t, run, p)
	}
	if len(run) > 0 {
		for _, i := range []int{0, len(run) - 1, r.Intn(len(run))} {
			k := run[i].Key()
			if !t.RangeContainsKey(k) || t.RangeKeyCompare(k) != 0 {
				c.Fail("range", "%s: key range excludes the written key %x", what, short(k))
			}
			p := k[:r.Intn(len(k)+1)]
			if !t.RangeContainsPrefix(p) {
				c.Fail("range", "%s: key range excludes prefix %x of the written key %x", what, p, short(k))
			}
		}
		mn, mx := run[0].SeqNum(), run[0].SeqNum()
		for _, e := range run {
			mn, mx = min(mn, e.SeqNum()), max(mx, e.SeqNum())
		}
		d := t.Document()
		if d.StartSeqNum != mn || d.EndSeqNum != mx {
			c.Fail("descriptor-seq", "%s: descriptor sequence range [%d,%d], entries have [%d,%d]", what, d.StartSeqNum, d.EndSeqNum, mn, mx)
		}
	}
}

var counts = []int{1, 2, 3, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 64, 100}

func table(c *vlib.Case) {
	r := c.R
	n := counts[r.Intn(len(counts))]
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(150)
	}
	run := genRun(r, n, []int{64, 600, 20000}[r.Intn(3)])
	fs, done := fsFor(c)
	defer done()
	tw := sst.NewTableWriter(fs, int64(r.Intn(3)))
	t, err := tw.Write(slices.Values(run))
	if err != nil {
		c.Fail("write", "%v", err)
	}
	c.Count("tables", 1)
	tomb := 0
	for i, e := range run {
		if e.IsDelete() {
			tomb++
		}
		if i < 40 {
			c.Trace("entry %d %s", i, str(e))
		}
	}
	if len(run) > 16 || tomb > 0 {
		c.NonTrivial(len(run), tomb, c.Seed)
	}
	c.Sample("%d entries, %d tombstones, first %s last %s", len(run), tomb, str(run[0]), str(run[len(run)-1]))
	c.Distinct("run_lengths", len(run))
	checkTable(c, "written table", t, run, 200)
	t2 := reopen(c, fs, t)
	if !bytes.Equal([]byte(t.URI()), []byte(t2.URI())) {
		c.Fail("descriptor", "uri %q became %q", t.URI(), t2.URI())
	}
	checkTable(c, "re-opened table", t2, run, 200)
	t3 := reopen(c, fs, t2)
	checkTable(c, "twice re-opened table", t3, run, 40)
	runtime.KeepAlive(t) // collecting the writer's table deletes its file
}

func once(run []kv.Entry) iter.Seq[kv.Entry] {
	used := false
	return func(yield func(kv.Entry) bool) {
		if used {
			panic("run iterated twice")
		}
		used = true
		for _, e := range run {
			if !yield(e) {
				return
			}
		}
	}
}

func run(c *vlib.Case) {
	r := c.R
	n := 1 + r.Intn(200)
	big := []int{30, 200, 3000}[r.Intn(3)]
	es := genRun(r, n, big)
	total := 0
	for _, e := range es {
		total += 4 + len(e.Key()) + 9
		if !e.IsDelete() {
			total += 4 + len(e.Value())
		}
	}
	target := uint64(1 + r.Intn(total+total/2+2))
	switch r.Intn(6) {
	case 0:
		target = uint64(max(1, total/(1+r.Intn(6))))
	case 1:
		target = uint64(1 + r.Intn(60)) // nearly every entry exceeds the target
	case 2:
		target = uint64(max(1, total-20+r.Intn(40)))
	case 3:
		target = uint64(max(1, total*2/3-20+r.Intn(40)))
	}
	fs, done := fsFor(c)
	defer done()
	tw := sst.NewTableWriter(fs, 0)
	ts, err := tw.WriteRun(once(es), target)
	if err != nil {
		c.Fail("write-run", "%v", err)
	}
	c.Trace("%d entries, %d bytes, target %d -> %d tables", len(es), total, target, len(ts))
	c.Count("run_tables", len(ts))
	c.Distinct("tables_per_run", len(ts))
	if len(ts) > 1 {
		c.NonTrivial(len(ts), len(es), target)
	}
	c.Sample("%d entries, %d bytes, target %d -> %d tables", len(es), total, target, len(ts))
	for i, e := range es {
		if i < 60 {
			c.Trace("entry %d %s", i, str(e))
		}
	}
	pos := 0
	var prevEnd []byte
	uris := map[string]bool{}
	for ti, t := range ts {
		if uris[t.URI()] {
			c.Fail("run-split", "two tables of one run share the file %s", t.URI())
		}
		uris[t.URI()] = true
		var serr error
		got := slices.Collect(t.ScanPrefix(nil, &serr))
		if serr != nil {
			c.Fail("run-split", "table %d/%d of a run: scan: %v", ti, len(ts), serr)
		}
		if len(got) == 0 {
			c.Fail("run-split", "table %d/%d of a run holds no entries (target %d)", ti, len(ts), target)
		}
		for _, g := range got {
			if pos >= len(es) || !same(g, es[pos]) {
				c.Fail("run-split", "table %d/%d: entry %s where the run has #%d of %d", ti, len(ts), str(g), pos, len(es))
			}
			pos++
		}
		d := t.Document()
		if d.Size < d.EntriesSize {
			c.Fail("descriptor", "size %d < entries size %d", d.Size, d.EntriesSize)
		}
		first, last := got[0].Key(), got[len(got)-1].Key()
		if ti > 0 && (bytes.Compare(prevEnd, first) >= 0) {
			c.Fail("run-split", "tables %d and %d overlap", ti-1, ti)
		}
		for x, u := range ts {
			if x != ti && (u.RangeContainsKey(first) || u.RangeContainsKey(last)) {
				c.Fail("run-split", "key range of table %d claims a key of table %d", x, ti)
			}
			if x < ti && (u.RangeKeyCompare(first) != -1) || x > ti && (u.RangeKeyCompare(last) != 1) {
				c.Fail("run-split", "key ranges of tables %d and %d are not ordered", x, ti)
			}
		}
		if len(ts) > 1 && ti < len(ts)-1 && d.EntriesSize*2 > 3*target+2*uint64(maxEntry(got)) {
			c.Fail("run-split", "table %d/%d has %d bytes, target %d", ti, len(ts), d.EntriesSize, target)
		}
		prevEnd = last
	}
	if pos != len(es) {
		c.Fail("run-split", "run of %d entries reads back as %d", len(es), pos)
	}
	// one level of a level list finds every entry in exactly the table that has it
	lvl := sst.NewLevelListOfTables([][]*sst.Table{nil, ts})
	var docs [][]sst.TableDocument
	b, err := json.Marshal(lvl.Document())
	if err != nil {
		c.Fail("descriptor", "%v", err)
	}
	if err := json.Unmarshal(b, &docs); err != nil {
		c.Fail("descriptor", "%v", err)
	}
	lvl2 := sst.NewLevelListFromDocument(fs, ownAll{}, docs)
	for li, l := range []*sst.LevelList{lvl, lvl2} {
		for _, e := range es {
			c.Count("table_gets", 1)
			g, err := l.Get(e.Key())
			if err != nil || !same(g, e) {
				c.Fail("run-get", "level list %d: Get(%x) = %v, %v, written %s", li, short(e.Key()), g, err, str(e))
			}
		}
		for _, p := range prefixesOf(r, es, 8) {
			c.Count("prefix_scans", 1)
			var want []kv.Entry
			for _, e := range es {
				if bytes.HasPrefix(e.Key(), p) && !e.IsDelete() {
					want = append(want, e)
				}
			}
			var serr error
			got := slices.Collect(l.ScanPrefix(p, &serr))
			if serr != nil || len(got) != len(want) {
				c.Fail("run-scan", "level list %d: ScanPrefix(%x) has %d entries, want %d, err %v", li, short(p), len(got), len(want), serr)
			}
			for i := range got {
				if !same(got[i], want[i]) {
					c.Fail("run-scan", "level list %d: ScanPrefix(%x)[%d] = %s, want %s", li, short(p), i, str(got[i]), str(want[i]))
				}
			}
		}
	}
	i := r.Intn(len(ts))
	var serr error
	checkTable(c, "re-opened run table", reopen(c, fs, ts[i]), slices.Collect(ts[i].ScanPrefix(nil, &serr)), 60)
	runtime.KeepAlive(lvl)
	runtime.KeepAlive(ts)
}

func maxEntry(es []kv.Entry) int {
	m := 0
	for _, e := range es {
		m = max(m, 17+len(e.Key())+len(e.Value()))
	}
	return m
}

// bigTable: enough entries that the bloom filter answers "maybe" for most absent keys.
func bigTable(c *vlib.Case) {
	r := c.R
	n := 8000 + r.Intn(20000)
	es := make([]kv.Entry, n)
	for i := range es {
		e := &ent{k: []byte(fmt.Sprintf("k%07d", i*2+1000)), seq: uint64(i + 1)}
		if r.Intn(5) == 0 {
			e.del = true
		} else {
			e.v = []byte(fmt.Sprint(i))
		}
		es[i] = e
	}
	fs, done := fsFor(c)
	defer done()
	t, err := sst.NewTableWriter(fs, 0).Write(slices.Values(es))
	if err != nil {
		c.Fail("write", "%v", err)
	}
	c.Count("tables", 1)
	c.NonTrivial(n)
	for _, tt := range []*sst.Table{t, reopen(c, fs, t)} {
		for x := 0; x < 300; x++ {
			checkGet(c, "big table", tt, es[r.Intn(n)])
			i := r.Intn(n)
			checkAbsent(c, "big table (gap)", tt, []byte(fmt.Sprintf("k%07d", i*2+1001)))
			checkAbsent(c, "big table (before the first key)", tt, []byte(fmt.Sprintf("a%07d", r.Intn(1<<20))))
			checkAbsent(c, "big table (after the last key)", tt, []byte(fmt.Sprintf("z%07d", r.Intn(1<<20))))
		}
		checkGet(c, "big table", tt, es[0])
		checkGet(c, "big table", tt, es[n-1])
		checkScan(c, "big table", tt, es, []byte(fmt.Sprintf("k%05d", r.Intn(n*2/100))))
	}
	runtime.KeepAlive(t)
}

func bloomFilter(c *vlib.Case) {
	r := c.R
	size := uint32(1 + r.Intn(300))
	if r.Intn(2) == 0 {
		size = uint32(1 + r.Intn(40000))
	}
	f := bloom.NewFilter(size, 1+r.Intn(8))
	var keys [][]byte
	for i, n := 0, r.Intn(200); i < n; i++ {
		k := rkey(r, r.Intn(4))
		keys = append(keys, k)
		f.Add(k)
	}
	var buf bytes.Buffer
	n := f.Encode(&buf)
	if n != buf.Len() {
		c.Fail("bloom", "Encode reports %d bytes, wrote %d", n, buf.Len())
	}
	buf.WriteString("trailing")
	g := bloom.Decode(&buf)
	if buf.String() != "trailing" {
		c.Fail("bloom", "Decode consumed %d bytes too many or few", 8-buf.Len())
	}
	for i, k := range keys {
		c.Count("bloom_probes", 2)
		if !f.MightHave(k) {
			c.Fail("bloom", "size %d: filter denies added key %x", size, k)
		}
		if !g.MightHave(k) {
			c.Fail("bloom", "size %d: decoded filter denies added key %d %x", size, i, k)
		}
	}
	for i := 0; i < 50; i++ {
		k := rkey(r, 2)
		if f.MightHave(k) != g.MightHave(k) {
			c.Fail("bloom", "decoded filter disagrees on %x", k)
		}
	}
	if len(keys) > 1 {
		c.NonTrivial(size, len(keys))
	}
}

type wop struct {
	seq uint64
	del bool
	k   []byte
	v   []byte
}

// walLog drives a chain of WAL writers the way the database does: entries with consecutive
// sequence numbers, cuts, truncations to a flushed sequence number that is a cut boundary
// or below, rotations; every sealed writer is saved (possibly later) and replayed.
func walLog(c *vlib.Case) {
	r := c.R
	fs, done := fsFor(c)
	defer done()
	w := wal.NewWriter(fs, r.Intn(3), uint64(1+r.Intn(400)))
	seq := uint64(r.Intn(5))
	base := seq
	flushed := seq // everything up to here is in SSTs
	var ops []wop  // all ops since the beginning
	var cuts []uint64
	type sealed struct {
		w     *wal.Writer
		after uint64
		last  uint64
		n     int
	}
	var pend, saved []sealed
	rot, trunc, dels := 0, 0, 0
	check := func(s sealed, after uint64) {
		var want []wop
		for _, o := range ops[:s.n] {
			if o.seq > after {
				want = append(want, o)
			}
		}
		h := s.w.Handle(after)
		// through the serialised form the checkpoint file has
		b, err := json.Marshal(h.Document())
		if err != nil {
			c.Fail("wal-handle", "%v", err)
		}
		var d wal.HandleDocument
		if err := json.Unmarshal(b, &d); err != nil {
			c.Fail("wal-handle", "%v", err)
		}
		h2 := wal.NewHandle(fs, d)
		if h2.ID != h.ID || h2.After != after || h2.URI() != h.URI() {
			c.Fail("wal-handle", "handle %d/%d/%s re-opens as %d/%d/%s", h.ID, h.After, h.URI(), h2.ID, h2.After, h2.URI())
		}
		i := 0
		for e, err := range wal.NewReader(fs, h2).All() {
			if err != nil {
				c.Fail("wal-replay", "replay after %d of log ending at %d: %v", after, s.last, err)
			}
			if i >= len(want) {
				c.Fail("wal-replay", "replay after %d of log ending at %d yields extra %x", after, s.last, e.K)
			}
			o := want[i]
			if !bytes.Equal(e.K, o.k) || e.Deleted != o.del || !o.del && !bytes.Equal(e.V, o.v) {
				c.Fail("wal-replay", "replay after %d: op %d is %x del=%v %x, appended %x del=%v %x (seq %d)", after, i, e.K, e.Deleted, short(e.V), o.k, o.del, short(o.v), o.seq)
			}
			i++
		}
		c.Count("wal_replayed_ops", i)
		if i != len(want) {
			c.Fail("wal-replay", "replay after %d of log ending at %d yields %d of %d ops", after, s.last, i, len(want))
		}
		if after > base && len(want) > 0 && (rot > 0 || trunc > 0) {
			c.NonTrivial(rot, trunc, dels, i, after)
		}
	}
	save := func(i int) {
		s := pend[i]
		pend = slices.Delete(pend, i, i+1)
		if err := s.w.Save(); err != nil {
			c.Fail("wal-save", "%v", err)
		}
		c.Trace("save log ending at %d (after %d)", s.last, s.after)
		check(s, s.after)
		// any later marker inside the log is just as valid
		if s.last > s.after {
			check(s, s.after+uint64(r.Intn(int(s.last-s.after)+1)))
		}
		saved = append(saved, s)
	}
	style := r.Intn(4)
	for i, n := 0, 20+r.Intn(120); i < n; i++ {
		switch x := r.Intn(20); {
		case x < 12:
			seq++
			o := wop{seq: seq, del: r.Intn(4) == 0, k: rkey(r, style)}
			if o.del {
				dels++
				w.Delete(o.k, seq)
			} else {
				o.v = rval(r, 300)
				w.Put(o.k, o.v, seq)
			}
			ops = append(ops, o)
			c.Trace("op %d del=%v %x", seq, o.del, o.k)
		case x < 15:
			w.Cut()
			cuts = append(cuts, seq)
			c.Trace("cut at %d", seq)
		case x < 17:
			// flush some or all cut segments
			var cand []uint64
			for _, x := range cuts {
				if x >= flushed {
					cand = append(cand, x)
				}
			}
			if len(cand) > 0 {
				flushed = cand[r.Intn(len(cand))]
			}
			// a memtable flush can also cover entries the next cut has not sealed yet
			if r.Intn(6) == 0 && seq > flushed {
				flushed += uint64(r.Intn(int(seq-flushed) + 1))
			}
			w.Truncate(flushed)
			trunc++
			c.Count("wal_truncations", 1)
			c.Trace("truncate %d", flushed)
		case x < 19:
			next := w.Rotate(fs)
			pend = append(pend, sealed{w, flushed, seq, len(ops)})
			w = next
			rot++
			c.Trace("rotate at %d (after %d)", seq, flushed)
		default:
			if len(pend) > 0 {
				save(r.Intn(len(pend)))
			}
		}
	}
	w.Rotate(fs)
	pend = append(pend, sealed{w, flushed, seq, len(ops)})
	for len(pend) > 0 {
		save(r.Intn(len(pend)))
	}
	// earlier logs are unaffected by everything written since
	for _, s := range saved {
		check(s, s.after)
	}
	c.Sample("%d ops (%d deletes), %d rotations, %d truncations, final log after=%d last=%d", len(ops), dels, rot, trunc, flushed, seq)
}
