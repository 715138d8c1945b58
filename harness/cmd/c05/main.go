// C05: key groups, ranges, routing and persisted key prefixes.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/util/murmur"
	"reduction.dev/reduction/workers/operator"
	"verif/harness/ref"
	"verif/harness/srx"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C05", Level: "exploration",
		Rule: "ranges: every (key groups 1-200, operators 1..groups+10) pair and samples up to 65535 groups checked for contiguity, coverage, balance, helper agreement and routing of random keys; hash: random binary keys (all tail lengths, high-bit bytes) against published vectors and an independent MurmurHash3-32; route: a real SourceRunner redeployed onto varying operator sets, each operator's stream checked against independently computed ownership; persist: everything the real state and timer stores write to a DB must lie under the key's group. Distinct counts (groups, operators) configurations.",
		Suites: []vlib.Suite{
			{Name: "ranges", Quick: 64, Thorough: 512, Run: ranges},
			{Name: "hash", Quick: 60, Thorough: 1000, Run: hash},
			{Name: "route", Quick: 120, Thorough: 2000, Run: route},
			{Name: "persist", Quick: 80, Thorough: 1500, Run: persist},
		},
		Require: []string{"configs", "hashes", "keyed_events", "persisted_keys"},
	})
}

// checkRanges verifies one configuration.
func checkRanges(c *vlib.Case, groups, n int, r interface{ Intn(int) int }) {
	ks := partitioning.NewKeySpace(groups, n)
	rs := ks.KeyGroupRanges()
	c.Count("configs", 1)
	if len(rs) != n {
		c.Fail("count", "groups=%d operators=%d: %d ranges", groups, n, len(rs))
	}
	at, lo, hi := 0, 1<<30, 0
	for i, x := range rs {
		if x.Start != at || x.End < x.Start {
			c.Fail("contiguous", "groups=%d operators=%d: range %d is [%d,%d), the previous one ended at %d", groups, n, i, x.Start, x.End, at)
		}
		at = x.End
		lo, hi = min(lo, x.Size()), max(hi, x.Size())
	}
	if at != groups {
		c.Fail("cover", "groups=%d operators=%d: ranges end at %d", groups, n, at)
	}
	if hi-lo > 1 {
		c.Fail("balance", "groups=%d operators=%d: range sizes from %d to %d", groups, n, lo, hi)
	}
	// the helpers agree with the interval
	for k := 0; k < 4; k++ {
		x := rs[r.Intn(len(rs))]
		for _, g := range []int{x.Start - 1, x.Start, x.End - 1, x.End, r.Intn(groups)} {
			if g < 0 || g > 65535 {
				continue
			}
			in := x.Start <= g && g < x.End
			if x.IncludesKeyGroup(partitioning.KeyGroup(g)) != in {
				c.Fail("includes", "[%d,%d).IncludesKeyGroup(%d) = %v", x.Start, x.End, g, !in)
			}
			if in && x.IndexOf(partitioning.KeyGroup(g)) != g-x.Start {
				c.Fail("index", "[%d,%d).IndexOf(%d) = %d", x.Start, x.End, g, x.IndexOf(partitioning.KeyGroup(g)))
			}
		}
		kgs := x.KeyGroups()
		if len(kgs) != x.Size() || len(kgs) > 0 && (int(kgs[0]) != x.Start || int(kgs[len(kgs)-1]) != x.End-1) {
			c.Fail("keygroups", "[%d,%d).KeyGroups() has %d entries", x.Start, x.End, len(kgs))
		}
	}
	// routing of keys agrees with the owner's range
	for k := 0; k < 6; k++ {
		key := make([]byte, r.Intn(12))
		for i := range key {
			key[i] = byte(r.Intn(256))
		}
		g, i := int(ks.KeyGroup(key)), ks.RangeIndex(key)
		if g != ref.Group(key, groups) {
			c.Fail("group", "groups=%d: key %x has group %d, MurmurHash3 mod count is %d", groups, key, g, ref.Group(key, groups))
		}
		if i < 0 || i >= n || g < rs[i].Start || g >= rs[i].End {
			c.Fail("owner", "groups=%d operators=%d: key %x of group %d routed to range %d", groups, n, key, g, i)
		}
	}
}

// ranges: the first cases cover all small configurations exhaustively, later ones sample.
func ranges(c *vlib.Case) {
	r := c.R
	if c.Index < 40 {
		for groups := c.Index*5 + 1; groups <= c.Index*5+5; groups++ {
			for n := 1; n <= groups+10; n++ {
				checkRanges(c, groups, n, r)
				c.Distinct("config", groups, n)
			}
		}
		c.NonTrivial(c.Index)
		return
	}
	for k := 0; k < 60; k++ {
		groups := 1 + r.Intn(65535)
		if r.Intn(4) == 0 {
			groups = []int{65535, 65534, 32768, 32767, 256, 257, 255}[r.Intn(7)]
		}
		n := 1 + r.Intn(64)
		switch r.Intn(6) {
		case 0:
			n = 1 + r.Intn(groups)
		case 1:
			n = groups
		case 2:
			n = groups + 1 + r.Intn(100)
		case 3:
			n = max(1, groups/(1+r.Intn(9))+r.Intn(3)-1)
		}
		checkRanges(c, groups, n, r)
		c.Distinct("config", groups, n)
	}
	// every group of one configuration through a full scan of its ranges
	groups, n := 1+r.Intn(5000), 1+r.Intn(40)
	seen := make([]int, groups)
	for _, x := range partitioning.NewKeySpace(groups, n).KeyGroupRanges() {
		for _, g := range x.KeyGroups() {
			seen[g]++
		}
	}
	for g, k := range seen {
		if k != 1 {
			c.Fail("exclusive", "groups=%d operators=%d: group %d is in %d ranges", groups, n, g, k)
		}
	}
	c.NonTrivial(c.Index)
}

var vectors = []struct {
	in   string
	want uint32
}{
	{"", 0}, {"a", 0x3c2569b2}, {"ab", 0x9bbfd75f}, {"abc", 0xb3dd93fa}, {"abcd", 0x43ed676a},
	{"hello", 0x248bfa47}, {"Hello, world!", 0xc0363e43}, {"The quick brown fox jumps over the lazy dog", 0x2e4ff723},
}

func hash(c *vlib.Case) {
	r := c.R
	for _, v := range vectors {
		if got := uint32(murmur.Hash([]byte(v.in), 0)); got != v.want || ref.Murmur3([]byte(v.in), 0) != v.want {
			c.Fail("vector", "MurmurHash3(%q) = %#x, published value %#x", v.in, got, v.want)
		}
	}
	for k := 0; k < 2000; k++ {
		key := make([]byte, r.Intn(40))
		if r.Intn(50) == 0 {
			key = make([]byte, r.Intn(5000))
		}
		switch r.Intn(4) {
		case 0:
			for i := range key {
				key[i] = 0x80 | byte(r.Intn(128))
			}
		case 1:
			for i := range key {
				key[i] = []byte{0, 0xff, 0x7f, 0x80}[r.Intn(4)]
			}
		default:
			r.Read(key)
		}
		before := bytes.Clone(key)
		if got, want := uint32(murmur.Hash(key, 0)), ref.Murmur3(key, 0); got != want {
			c.Fail("hash", "Hash(%x) = %#x, MurmurHash3-32 is %#x", key, got, want)
		}
		if !bytes.Equal(before, key) {
			c.Fail("hash", "Hash changed its input %x", before)
		}
		c.Count("hashes", 1)
		groups := 1 + r.Intn(65535)
		kg := partitioning.KeyGroup(ref.Group(key, groups))
		var b [2]byte
		kg.PutBytes(b[:])
		if binary.BigEndian.Uint16(b[:]) != uint16(kg) || partitioning.KeyGroupFromBytes(b[:]) != kg {
			c.Fail("bytes", "group %d encodes as %x", kg, b)
		}
	}
	c.NonTrivial(c.Index)
}

// route: the real source runner's streams hold only keys of the owning operator.
func route(c *vlib.Case) {
	r := c.R
	in := srx.GenInput(r, 1+r.Intn(3), 150, srx.Keys(r, 20+r.Intn(80)), srx.Ordered)
	var k srx.Knobs
	k.Batching.MaxSize, k.Batching.MaxDelay = 1+r.Intn(20), time.Millisecond
	k.Read.MaxBatch = 20
	w := srx.New(c, in, k, srx.Routes)
	groups := []int{1, 2, 5, 16, 17, 100, 256, 999, 65535}[r.Intn(9)]
	nOps := 1 + r.Intn(12)
	// redeployments change the operator set; routes must follow
	for d := 0; d < 1+r.Intn(3); d++ {
		dep := w.Deploy(nOps, groups)
		splits := map[int]int{}
		for s := range in.Splits {
			splits[s] = 0
		}
		w.Assign(dep, splits)
		w.WaitDelivered(dep, 0, 5*time.Second)
		w.Check(dep, false)
		c.Distinct("route_config", groups, nOps)
		nOps = 1 + r.Intn(12)
	}
	w.Close()
	c.NonTrivial(groups, nOps, c.Index)
}

// persist: what the stores write lies under the key's group.
func persist(c *vlib.Case) {
	r := c.R
	groups, n := 1+r.Intn(300), 1+r.Intn(9)
	switch r.Intn(5) {
	case 0:
		groups = 65535 - r.Intn(3)
	case 1:
		groups = 1 + r.Intn(4)
	}
	ks := partitioning.NewKeySpace(groups, n)
	idx := r.Intn(n)
	rng := ks.KeyGroupRanges()[idx]
	db := dkv.Open(dkv.DBOptions{FileSystem: storage.NewMemoryFilesystem()}, nil)
	defer db.Close()
	store := operator.NewKeyedStateStore(db, ks)
	var timers *operator.TimerStore
	if rng.Size() > 0 {
		timers = operator.NewTimerStore(db, ks, rng, 1<<20)
	}
	want := map[string]int{} // expected number of db entries with the prefix
	keys := srx.Keys(r, 40)
	for _, key := range keys {
		g := ref.Group(key, groups)
		if !rng.IncludesKeyGroup(partitioning.KeyGroup(g)) {
			continue
		}
		p := string([]byte{byte(g >> 8), byte(g)})
		for i := 0; i < 1+r.Intn(3); i++ {
			if timers != nil && r.Intn(2) == 0 {
				timers.Put(key, time.Unix(int64(r.Intn(1000))+int64(i)*1000, 0))
			} else {
				store.ApplyMutations(key, []*handlerpb.StateMutationNamespace{{Namespace: fmt.Sprint("ns", i), Mutations: []*handlerpb.StateMutation{{
					Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: []byte{byte(i)}, Value: key}}}}}})
			}
			want[p]++
		}
	}
	var err error
	got := map[string]int{}
	for e := range db.ScanPrefix(nil, &err) {
		if len(e.Key()) < 3 {
			c.Fail("prefix", "persisted key %x is too short", e.Key())
		}
		got[string(e.Key()[:2])]++
		c.Count("persisted_keys", 1)
	}
	if err != nil {
		c.Fail("scan", "%v", err)
	}
	for p, k := range want {
		if got[p] != k {
			c.Fail("prefix", "groups=%d: %d entries were stored for keys of group %x, %d are stored under it", groups, k, p, got[p])
		}
	}
	for p, k := range got {
		if want[p] != k {
			c.Fail("prefix", "groups=%d: %d entries are stored under group %x, expected %d", groups, k, p, want[p])
		}
	}
	c.NonTrivial(groups, n, len(want))
}
