// C19: ordered structures against sorted-slice references.
package main

import (
	"bytes"
	"cmp"
	"fmt"
	"iter"
	"math/rand"
	"slices"
	"sort"
	"strings"

	"reduction.dev/reduction/dkv/mergesort"
	"reduction.dev/reduction/dkv/ziptree"
	"reduction.dev/reduction/util/ds"
	"reduction.dev/reduction/util/iteru"
	"reduction.dev/reduction/util/sliceu"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C19", Level: "exploration",
		Rule: "random op sequences (insert/replace/delete/lookup/iterate/pop/fix) per structure over adversarial byte-string keys (empty, prefixes of one another, 0x00/0xff runs, duplicates) compared op by op with a sorted-slice reference; a case is non-trivial when it replaced or removed something and iterated a structure of at least 2 elements (search: slices of every length 0..80, every position and gap)",
		Suites: []vlib.Suite{
			{Name: "ziptree", Quick: 1500, Thorough: 20000, Run: zip},
			{Name: "heap", Quick: 1500, Thorough: 20000, Run: heap},
			{Name: "ppq", Quick: 1500, Thorough: 20000, Run: ppq},
			{Name: "cache", Quick: 2000, Thorough: 20000, Run: cache},
			{Name: "set", Quick: 800, Thorough: 8000, Run: set},
			{Name: "sortedmap", Quick: 800, Thorough: 8000, Run: sortedmap},
			{Name: "merge", Quick: 1500, Thorough: 20000, Run: merge},
			{Name: "mergesorted", Quick: 1000, Thorough: 10000, Run: mergeSorted},
			{Name: "search", Quick: 81, Thorough: 301, Run: search},
		},
		Require: []string{"ziptree_ops", "heap_pops", "ppq_pops", "cache_ops", "set_ops", "sortedmap_ops", "merge_items", "mergesorted_items", "search_lookups"},
	})
}

var alpha = [][]byte{{0}, {0xff}, []byte("a"), []byte("b"), []byte("aa"), {0, 0}, {0xff, 0xff}, {1}, []byte("ab"), {0x7f}, {0x80}}

func key(r *rand.Rand, maxParts int) []byte {
	n := r.Intn(maxParts + 1)
	k := []byte{}
	for i := 0; i < n; i++ {
		k = append(k, alpha[r.Intn(len(alpha))]...)
	}
	return k
}

func zip(c *vlib.Case) {
	r := c.R
	t := ziptree.New()
	ref := map[string]*ziptree.Node{}
	maxParts := 1 + r.Intn(5)
	n := 5 + r.Intn(300)
	if r.Intn(40) == 0 {
		n *= 8
	}
	order := r.Intn(3)
	seq := 0
	replaced, iterated := 0, 0
	var lastPut []byte
	for i := 0; i < n; i++ {
		switch op := r.Intn(10); {
		case op < 5:
			k := key(r, maxParts)
			if order == 1 { // ascending runs
				seq++
				k = []byte(fmt.Sprintf("%04d", seq))
			} else if order == 2 {
				seq++
				k = []byte(fmt.Sprintf("%04d", 5000-seq))
			}
			if lastPut != nil && r.Intn(4) == 0 {
				k = append([]byte{}, lastPut...)
			}
			lastPut = k
			v := []byte(fmt.Sprint(i))
			nd := ziptree.NewKVEntry(append([]byte{}, k...), v)
			old := t.Put(nd)
			want := ref[string(k)]
			if (old == nil) != (want == nil) || (old != nil && !bytes.Equal(old.Value, want.Value)) {
				c.Fail("ziptree", "Put(%q) returned replaced=%v want %v", k, old, want)
			}
			if want != nil {
				replaced++
			}
			ref[string(k)] = nd
		case op < 8:
			k := key(r, maxParts)
			if r.Intn(2) == 0 {
				for s := range ref {
					k = []byte(s)
					break
				}
			}
			nd, ok := t.Get(k)
			want, wok := ref[string(k)]
			if ok != wok || (ok && (!bytes.Equal(nd.Value, want.Value) || !bytes.Equal(nd.Key, k))) {
				c.Fail("ziptree", "Get(%q)=%v,%v want %v,%v", k, nd, ok, want, wok)
			}
		default:
			p := key(r, 2)
			if r.Intn(4) == 0 {
				p = nil
			}
			var want []string
			for s := range ref {
				if strings.HasPrefix(s, string(p)) {
					want = append(want, s)
				}
			}
			sort.Strings(want)
			limit := len(want)
			if r.Intn(4) == 0 {
				limit = r.Intn(limit + 1)
			}
			var got []string
			cnt := 0
			for nd := range t.AscendPrefix(p) {
				if cnt == limit && limit < len(want) {
					break
				}
				if w := ref[string(nd.Key)]; w == nil || !bytes.Equal(w.Value, nd.Value) {
					c.Fail("ziptree", "AscendPrefix(%q) yielded %q=%q want %v", p, nd.Key, nd.Value, w)
				}
				got = append(got, string(nd.Key))
				cnt++
			}
			if !slices.Equal(got, want[:limit]) {
				c.Fail("ziptree", "AscendPrefix(%q)=%q want %q", p, got, want[:limit])
			}
			if len(got) > 1 {
				iterated++
			}
			c.Count("ziptree_iterated", len(got))
		}
		c.Count("ziptree_ops", 1)
	}
	// full check
	var got, want []string
	for nd := range t.AscendPrefix(nil) {
		got = append(got, string(nd.Key))
	}
	for s := range ref {
		want = append(want, s)
		if nd, ok := t.Get([]byte(s)); !ok || !bytes.Equal(nd.Value, ref[s].Value) {
			c.Fail("ziptree", "final Get(%q)=%v,%v", s, nd, ok)
		}
	}
	sort.Strings(want)
	if !slices.Equal(got, want) {
		c.Fail("ziptree", "final iteration %q want %q", got, want)
	}
	if replaced > 0 && iterated > 0 {
		c.NonTrivial(want, n)
		c.Sample("ziptree: %d ops, final keys %q", n, want)
	}
}

type el struct{ v, id, idx int }

func heap(c *vlib.Case) {
	r := c.R
	h := ds.NewHeap(func(a, b *el) int { return cmp.Compare(a.v, b.v) }, r.Intn(10))
	h.SetIndexAssigner(func(e *el, i int) { e.idx = i })
	in := map[*el]bool{}
	span := 1 + r.Intn(50)
	n, pushes := 5+r.Intn(200), 5
	if r.Intn(40) == 0 {
		n, pushes = 300+r.Intn(900), 6 // a larger heap
	}
	id, fixed, pops := 0, 0, 0
	minv := func() int {
		m := 1 << 30
		for e := range in {
			m = min(m, e.v)
		}
		return m
	}
	rnd := func() *el {
		l := make([]*el, 0, len(in))
		for e := range in {
			l = append(l, e)
		}
		if len(l) == 0 {
			return nil
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return l[r.Intn(len(l))]
	}
	pop := func() {
		e, ok := h.Pop()
		if ok != (len(in) > 0) {
			c.Fail("heap", "Pop ok=%v with %d elements", ok, len(in))
		}
		if ok {
			if !in[e] {
				c.Fail("heap", "Pop returned element %v not in heap", *e)
			}
			if e.v != minv() {
				c.Fail("heap", "Pop returned %d, minimum is %d", e.v, minv())
			}
			delete(in, e)
			pops++
			c.Count("heap_pops", 1)
		}
	}
	for i := 0; i < n; i++ {
		switch op := r.Intn(10); {
		case op < pushes:
			id++
			e := &el{v: r.Intn(span), id: id, idx: -2}
			h.Push(e)
			in[e] = true
		case op < 7:
			pop()
		case op < 9:
			if e := rnd(); e != nil {
				e.v = r.Intn(span)
				h.Fix(e.idx)
				fixed++
			}
		default:
			h.Fix(-1)
		}
		e, ok := h.Peek()
		if ok != (len(in) > 0) || (ok && e.v != minv()) {
			c.Fail("heap", "Peek=%v,%v want min %d of %d", e, ok, minv(), len(in))
		}
		if h.Size() != len(in) || h.IsEmpty() != (len(in) == 0) {
			c.Fail("heap", "Size=%d want %d", h.Size(), len(in))
		}
		seen := map[int]bool{}
		for e := range in {
			if e.idx < 0 || e.idx >= len(in) || seen[e.idx] {
				c.Fail("heap", "assigned indexes are not a permutation: index %d among %d elements", e.idx, len(in))
			}
			seen[e.idx] = true
		}
	}
	for len(in) > 0 {
		pop()
	}
	if _, ok := h.Pop(); ok {
		c.Fail("heap", "Pop on empty heap ok")
	}
	// plain heap without index assigner: heapsort of duplicates
	var xs []int
	h2 := ds.NewHeap(func(a, b int) int { return a - b }, 0)
	for i := r.Intn(1 + r.Intn(300)); i > 0; i-- {
		x := r.Intn(span)
		xs = append(xs, x)
		h2.Push(x)
	}
	sort.Ints(xs)
	for i, x := range xs {
		if y, ok := h2.Pop(); !ok || y != x {
			c.Fail("heap", "heapsort position %d: %d,%v want %d", i, y, ok, x)
		}
	}
	if fixed > 0 && pops > 1 {
		c.NonTrivial(c.Seed)
		c.Sample("heap: %d ops, %d fixes, %d pops, priorities 0..%d", n, fixed, pops, span)
	}
}

type item struct{ prio, part, id int }

type part struct {
	items []item
	index int
}

func (p *part) Peek() (item, bool) {
	if len(p.items) == 0 {
		return item{}, false
	}
	return p.items[0], true
}
func (p *part) Pop() (item, bool) {
	if len(p.items) == 0 {
		return item{}, false
	}
	x := p.items[0]
	p.items = append([]item{}, p.items[1:]...)
	return x, true
}
func (p *part) Push(x item) {
	p.items = append(p.items, x)
	sort.SliceStable(p.items, func(i, j int) bool { return p.items[i].prio < p.items[j].prio })
}
func (p *part) IsEmpty() bool { return len(p.items) == 0 }
func (p *part) Delete(x item) {
	p.items = slices.DeleteFunc(p.items, func(y item) bool { return y == x })
}
func (p *part) AssignIndex(i int) { p.index = i }
func (p *part) Index() int        { return p.index }

func ppq(c *vlib.Case) {
	r := c.R
	np := 1 + r.Intn(12)
	parts := make([]ds.QueuePartition[item], np)
	in := map[item]bool{}
	id := 0
	span := 1 + r.Intn(40)
	for i := range parts {
		p := &part{}
		for k := r.Intn(4); k > 0 && r.Intn(2) == 0; k-- {
			id++
			x := item{r.Intn(span), i, id}
			p.Push(x)
			in[x] = true
		}
		parts[i] = p
	}
	q := ds.NewPartitionedPriorityQueue(parts, func(a, b item) int { return a.prio - b.prio }, func(x item) int { return x.part })
	minp := func() int {
		m := 1 << 30
		for e := range in {
			m = min(m, e.prio)
		}
		return m
	}
	n := 10 + r.Intn(150)
	dels, pops := 0, 0
	check := func(what string) {
		x, ok := q.Peek()
		if ok != (len(in) > 0) || q.IsEmpty() == ok {
			c.Fail("ppq", "%s: Peek ok=%v IsEmpty=%v with %d items", what, ok, q.IsEmpty(), len(in))
		}
		if ok && (!in[x] || x.prio != minp()) {
			c.Fail("ppq", "%s: Peek=%v minimum priority %d", what, x, minp())
		}
	}
	for i := 0; i < n; i++ {
		switch op := r.Intn(10); {
		case op < 5:
			id++
			x := item{r.Intn(span), r.Intn(np), id}
			q.Push(x)
			in[x] = true
			check("push")
		case op < 8:
			x, ok := q.Pop()
			if ok != (len(in) > 0) || (ok && (!in[x] || x.prio != minp())) {
				c.Fail("ppq", "Pop=%v,%v minimum %d of %d items", x, ok, minp(), len(in))
			}
			delete(in, x)
			if ok {
				pops++
				c.Count("ppq_pops", 1)
			}
			check("pop")
		default:
			l := make([]item, 0, len(in))
			for x := range in {
				l = append(l, x)
			}
			x := item{r.Intn(span), r.Intn(np), -1} // absent
			if len(l) > 0 && r.Intn(3) > 0 {
				sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
				x = l[r.Intn(len(l))]
				dels++
			}
			q.Delete(x)
			delete(in, x)
			check("delete")
		}
	}
	last := -1
	for len(in) > 0 {
		x, ok := q.Pop()
		if !ok || !in[x] || x.prio < last {
			c.Fail("ppq", "drain: %v,%v after priority %d", x, ok, last)
		}
		last = x.prio
		delete(in, x)
	}
	check("end")
	if dels > 0 && pops > 0 {
		c.NonTrivial(c.Seed)
		c.Sample("ppq: %d partitions, %d ops, %d pops, %d deletes", np, n, pops, dels)
	}
}

func cache(c *vlib.Case) {
	r := c.R
	maxSize := uint64(r.Intn(60))
	s := ds.NewSortedCache(maxSize)
	in := map[string]bool{}
	size := func() uint64 {
		var t uint64
		for k := range in {
			t += uint64(len(k))
		}
		return t
	}
	ks := func() []string {
		l := make([]string, 0, len(in))
		for k := range in {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	dups, rem := 0, 0
	n := 10 + r.Intn(200)
	if r.Intn(40) == 0 {
		n *= 5
	}
	mp := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		var what string
		switch op := r.Intn(12); {
		case op < 6:
			k := key(r, mp)
			what = fmt.Sprintf("Push(%q)", k)
			if in[string(k)] {
				dups++
			}
			s.Push(append([]byte{}, k...))
			in[string(k)] = true
		case op < 9:
			l := ks()
			var got []byte
			var ok bool
			var want string
			if op < 8 {
				got, ok = s.Pop()
				if len(l) > 0 {
					want = l[0]
				}
				what = "Pop"
			} else {
				got, ok = s.PopLast()
				if len(l) > 0 {
					want = l[len(l)-1]
				}
				what = "PopLast"
			}
			if ok != (len(l) > 0) || (ok && string(got) != want) {
				c.Fail("cache", "%s=%q,%v want %q of %d", what, got, ok, want, len(l))
			}
			delete(in, want)
			rem++
		default:
			k := key(r, mp)
			if l := ks(); len(l) > 0 && r.Intn(2) == 0 {
				k = []byte(l[r.Intn(len(l))])
				rem++
			}
			what = fmt.Sprintf("Delete(%q)", k)
			s.Delete(k)
			delete(in, string(k))
		}
		c.Count("cache_ops", 1)
		l := ks()
		p, ok := s.Peek()
		if ok != (len(l) > 0) || (ok && string(p) != l[0]) {
			c.Fail("cache", "after %s: Peek=%q,%v want first of %q", what, p, ok, l)
		}
		if s.IsEmpty() != (len(l) == 0) {
			c.Fail("cache", "after %s: IsEmpty=%v with %d", what, s.IsEmpty(), len(l))
		}
		if s.IsFull() != (size() >= maxSize) {
			c.Fail("cache", "after %s: IsFull=%v with %d bytes of %d (contents %q)", what, s.IsFull(), size(), maxSize, l)
		}
	}
	if dups > 0 && rem > 0 {
		c.NonTrivial(c.Seed)
		c.Sample("cache: max %d bytes, %d ops, %d duplicate pushes, final %q", maxSize, n, dups, ks())
	}
}

func set(c *vlib.Case) {
	r := c.R
	type pair struct {
		s   *ds.Set[int]
		ref []int
	}
	pool := []pair{{ds.NewSet[int](r.Intn(10)), nil}}
	span := 2 + r.Intn(20)
	rnds := func() []int {
		out := make([]int, r.Intn(5))
		for i := range out {
			out[i] = r.Intn(span)
		}
		return out
	}
	addAll := func(ref []int, vs []int) []int {
		ref = slices.Clone(ref)
		for _, v := range vs {
			if !slices.Contains(ref, v) {
				ref = append(ref, v)
			}
		}
		return ref
	}
	rem := 0
	n := 5 + r.Intn(60)
	for i := 0; i < n; i++ {
		k := r.Intn(len(pool))
		p := pool[k]
		vs := rnds()
		switch r.Intn(6) {
		case 0, 1:
			p.s.Add(vs...)
			pool[k].ref = addAll(p.ref, vs)
		case 2:
			pool = append(pool, pair{p.s.Added(vs...), addAll(p.ref, vs)})
		case 3:
			var w []int
			for _, x := range p.ref {
				if !slices.Contains(vs, x) {
					w = append(w, x)
				}
			}
			if len(w) < len(p.ref) {
				rem++
			}
			pool = append(pool, pair{p.s.Without(vs...), w})
		case 4:
			q := pool[r.Intn(len(pool))]
			var w []int
			for _, x := range p.ref {
				if !slices.Contains(q.ref, x) {
					w = append(w, x)
				}
			}
			pool = append(pool, pair{p.s.Diff(q.s), w})
		case 5:
			pool = append(pool, pair{ds.SetOf(vs...), addAll(nil, vs)})
		}
		if len(pool) > 12 {
			pool = pool[len(pool)-12:]
		}
		// all sets, including those derived from, still equal their references
		for _, p := range pool {
			got := slices.Collect(p.s.All())
			if !slices.Equal(got, p.ref) || !slices.Equal(p.s.Slice(), p.ref) || p.s.Size() != len(p.ref) {
				c.Fail("set", "set %v (slice %v size %d) want %v", got, p.s.Slice(), p.s.Size(), p.ref)
			}
			for x := 0; x < span; x++ {
				if p.s.Has(x) != slices.Contains(p.ref, x) {
					c.Fail("set", "Has(%d)=%v in %v", x, p.s.Has(x), p.ref)
				}
			}
			stop := 0
			for range p.s.All() {
				stop++
				if stop == 2 {
					break
				}
			}
		}
		c.Count("set_ops", 1)
	}
	if rem > 0 {
		c.NonTrivial(c.Seed)
		c.Sample("set: %d ops, %d sets alive, last %v", n, len(pool), pool[len(pool)-1].ref)
	}
}

func sortedmap(c *vlib.Case) {
	r := c.R
	m := ds.NewSortedMap[string, int]()
	ref := map[string]int{}
	mp := 1 + r.Intn(3)
	n := 5 + r.Intn(150)
	dels, reps := 0, 0
	for i := 0; i < n; i++ {
		k := string(key(r, mp))
		switch op := r.Intn(10); {
		case op < 5:
			_, had := ref[k]
			if nw := m.Set(k, i); nw == had {
				c.Fail("sortedmap", "Set(%q) new=%v had=%v", k, nw, had)
			}
			if had {
				reps++
			}
			ref[k] = i
		case op < 8:
			_, had := ref[k]
			if rm := m.Delete(k); rm != had {
				c.Fail("sortedmap", "Delete(%q) removed=%v had=%v", k, rm, had)
			}
			if had {
				dels++
			}
			delete(ref, k)
		default:
			cnt := 0
			for range m.All() {
				cnt++
				if cnt == 3 {
					break
				}
			}
		}
		v, ok := m.Get(k)
		w, wok := ref[k]
		if ok != wok || v != w || m.Has(k) != wok || m.Size() != len(ref) {
			c.Fail("sortedmap", "Get(%q)=%d,%v want %d,%v size %d want %d", k, v, ok, w, wok, m.Size(), len(ref))
		}
		if r.Intn(3) == 0 {
			ks := make([]string, 0)
			for k := range ref {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var vs []int
			for _, k := range ks {
				vs = append(vs, ref[k])
			}
			gk := slices.Clone(m.Keys())
			gv := m.Values()
			var ak []string
			var av []int
			for k, v := range m.All() {
				ak = append(ak, k)
				av = append(av, v)
			}
			if !slices.Equal(gk, ks) || !slices.Equal(gv, vs) || !slices.Equal(ak, ks) || !slices.Equal(av, vs) {
				c.Fail("sortedmap", "Keys %q Values %v All %q/%v want %q %v", gk, gv, ak, av, ks, vs)
			}
		}
		c.Count("sortedmap_ops", 1)
	}
	if dels > 0 && reps > 0 {
		c.NonTrivial(c.Seed)
		c.Sample("sortedmap: %d ops %d deletes %d replacements", n, dels, reps)
	}
}

type kvs struct {
	k string
	s int
}

func merge(c *vlib.Case) {
	r := c.R
	ni := r.Intn(7)
	if r.Intn(30) == 0 {
		ni = 20 + r.Intn(200)
	}
	mp := 1 + r.Intn(3)
	lists := make([][]kvs, ni)
	best := map[string]int{}
	seq := 0
	dup := 0
	total := 0
	within := r.Intn(2) == 0
	for i := range lists {
		n := r.Intn(20)
		var l []kvs
		seen := map[string]bool{}
		for j := 0; j < n; j++ {
			seq++
			k := string(key(r, mp))
			if seen[k] && !within {
				continue
			}
			seen[k] = true
			l = append(l, kvs{k, r.Intn(1000)*1000 + seq})
		}
		sort.SliceStable(l, func(a, b int) bool { return l[a].k < l[b].k })
		for _, e := range l {
			if _, ok := best[e.k]; ok {
				dup++
			}
			best[e.k] = max(best[e.k], e.s)
			total++
		}
		lists[i] = l
	}
	mk := func() iter.Seq[kvs] {
		its := make([]iter.Seq[kvs], ni)
		for i := range lists {
			its[i] = slices.Values(lists[i])
		}
		return mergesort.Merge(its, func(a, b kvs) int { return strings.Compare(a.k, b.k) }, func(a, b kvs) kvs {
			if a.s > b.s {
				return a
			}
			return b
		})
	}
	var want []kvs
	for k, s := range best {
		want = append(want, kvs{k, s})
	}
	sort.Slice(want, func(i, j int) bool { return want[i].k < want[j].k })
	got := slices.Collect(mk())
	if !slices.Equal(got, want) {
		c.Fail("merge", "merge of %v = %v want %v", lists, got, want)
	}
	if len(want) > 0 {
		stop := r.Intn(len(want)) + 1
		var part []kvs
		for e := range mk() {
			part = append(part, e)
			if len(part) == stop {
				break
			}
		}
		if !slices.Equal(part, want[:stop]) {
			c.Fail("merge", "first %d of merge of %v = %v want %v", stop, lists, part, want[:stop])
		}
	}
	c.Count("merge_items", total)
	if dup > 0 && ni > 1 {
		c.NonTrivial(fmt.Sprint(lists))
		c.Sample("merge of %v", lists)
	}
}

func mergeSorted(c *vlib.Case) {
	r := c.R
	ni := r.Intn(7)
	if r.Intn(30) == 0 {
		ni = 20 + r.Intn(200)
	}
	lists := make([][]kvs, ni)
	var all []kvs
	id := 0
	for i := range lists {
		var l []kvs
		for j := r.Intn(15); j > 0; j-- {
			id++
			l = append(l, kvs{string(key(r, 2)), id})
		}
		sort.SliceStable(l, func(a, b int) bool { return l[a].k < l[b].k })
		lists[i] = l
		all = append(all, l...)
	}
	its := make([]iter.Seq[kvs], ni)
	for i := range lists {
		its[i] = slices.Values(lists[i])
	}
	limit := len(all)
	if r.Intn(4) == 0 {
		limit = r.Intn(limit + 1)
	}
	var got []kvs
	for e := range iteru.MergeSorted(its, func(a, b kvs) int { return strings.Compare(a.k, b.k) }) {
		if len(got) == limit && limit < len(all) {
			break
		}
		got = append(got, e)
	}
	keys := func(l []kvs) (o []string) {
		for _, e := range l {
			o = append(o, e.k)
		}
		return
	}
	wk := keys(all)
	sort.Strings(wk)
	if !slices.Equal(keys(got), wk[:limit]) {
		c.Fail("mergesorted", "MergeSorted(%v)=%v", lists, got)
	}
	seen := map[int]bool{}
	for _, e := range got {
		if seen[e.s] || !slices.Contains(all, e) {
			c.Fail("mergesorted", "MergeSorted(%v) yields %v twice or unknown: %v", lists, e, got)
		}
		seen[e.s] = true
	}
	// per input order kept
	for _, l := range lists {
		pos := -1
		for _, e := range l {
			p := slices.Index(got, e)
			if p == -1 {
				continue
			}
			if p < pos {
				c.Fail("mergesorted", "MergeSorted(%v) reorders an input: %v", lists, got)
			}
			pos = p
		}
	}
	c.Count("mergesorted_items", len(got))
	if ni > 1 && len(all) > 3 {
		c.NonTrivial(fmt.Sprint(lists))
		c.Sample("mergesorted of %v", lists)
	}
}

func search(c *vlib.Case) {
	n := c.Index
	r := c.R
	for rep := 0; rep < 3; rep++ {
		xs := make([]int, n)
		v := 0
		for i := range xs {
			v += 2 + r.Intn(3)*rep
			xs[i] = v
		}
		for t := 0; t <= v+3; t++ {
			i, ok := sliceu.SearchUnique(xs, t, func(a, b int) int { return a - b })
			wi, wok := slices.BinarySearch(xs, t)
			if ok != wok || (ok && i != wi) {
				c.Fail("search", "SearchUnique(%v, %d)=%d,%v want %d,%v", xs, t, i, ok, wi, wok)
			}
			c.Count("search_lookups", 1)
		}
	}
	if n > 1 {
		c.NonTrivial(n)
		c.Sample("search: slices of length %d, every element and gap", n)
	}
}
