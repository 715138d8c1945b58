// C20: batches and reordered fetch results against the sequence of added items.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/util/vhook"
	"verif/harness/vlib"
)

func main() {
	vlib.Main(vlib.Prop{
		ID: "C20", Level: "exploration",
		Rule: "batcher: random sequences of Add/IsFull/Flush(current)/Flush(token)/timer firings (also of timers that were stopped, as a firing racing with a flush would), every returned batch compared online with a reference queue and re-read at the end; wrap: a few tokens kept over up to 70 000 (thorough 300 000) later batches and presented to every one of them; clock: system timer under virtual time, every batch's age bounded by the delay from both sides; conc: one adder against concurrent flushers and token senders under the race detector, batches ordered by their call intervals; fetcher: real ReorderFetcher with random sizes, buffer limits, fetch completion orders, slow consumers and concurrent size, explicit and time-out flushers, delays injected between flush and reservation; faults: a failing fetch, output must stay a prefix of the input. Non-trivial: at least 2 batches and (batcher) a stale token or (fetcher) an out-of-order completion",
		Suites: []vlib.Suite{
			{Name: "batcher", Quick: 3000, Thorough: 60000, Run: batcher},
			{Name: "wrap", Quick: 8, Thorough: 60, Run: wrap},
			{Name: "clock", Quick: 400, Thorough: 6000, Run: clock},
			{Name: "conc", Quick: 150, Thorough: 3000, Run: conc},
			{Name: "fetcher", Quick: 500, Thorough: 10000, Run: func(c *vlib.Case) { fetcher(c, false) }},
			{Name: "faults", Quick: 150, Thorough: 2000, Run: func(c *vlib.Case) { fetcher(c, true) }},
		},
		Require: []string{"batches", "stale_tokens", "old_tokens", "timeout_batches", "conc_batches", "fetch_batches", "empty_results", "large_batches", "out_of_order_completions", "outputs", "timer_flushes", "fetch_errors"},
	})
}

// timer is the harness's clocks.Timer: it remembers every callback set.
type timer struct {
	mu    sync.Mutex
	all   []*cb
	armed *cb
	tag   func() int
}

type cb struct {
	do  func()
	d   time.Duration
	gen int
}

func (t *timer) Set(d time.Duration, do func()) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.armed = &cb{do, d, t.tag()}
	t.all = append(t.all, t.armed)
}

func (t *timer) Stop() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.armed = nil
}

func (t *timer) pick(r *rand.Rand, armed bool) *cb {
	t.mu.Lock()
	defer t.mu.Unlock()
	if armed {
		return t.armed
	}
	if len(t.all) == 0 {
		return nil
	}
	return t.all[r.Intn(len(t.all))]
}

func batcher(c *vlib.Case) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	gen := 0
	tm := &timer{tag: func() int { return gen }}
	p := batching.EventBatcherParams{MaxSize: r.Intn(6), Timer: tm}
	if r.Intn(4) > 0 {
		p.MaxDelay = time.Duration(1+r.Intn(1000)) * time.Millisecond
	}
	b := batching.NewEventBatcher[int](ctx, p)
	size := max(1, p.MaxSize)
	type token struct {
		t   batching.BatchToken
		gen int
	}
	var tokens []token
	var cur []int
	next := 0
	var got [][]int  // batches as returned (kept to see later modifications)
	var want [][]int // what they were
	stale := 0
	took := func(how string, res []int) {
		c.Trace("flush %s -> %v (pending %v)", how, res, cur)
		if !slices.Equal(res, cur) {
			c.Fail("batch", "flush (%s) returned %v, pending items were %v", how, res, cur)
		}
		if len(res) > 0 {
			got, want = append(got, res), append(want, slices.Clone(res))
			c.Count("batches", 1)
			cur = nil
			gen++
		}
	}
	fire := func(k *cb) token {
		done := make(chan struct{})
		go func() { k.do(); close(done) }()
		select {
		case t := <-b.BatchTimedOut:
			<-done
			return token{t, k.gen}
		case <-time.After(20 * time.Second):
			c.Fail("no-token", "a fired time-out delivered no token")
			return token{}
		}
	}
	n := 10 + r.Intn(120)
	addBias := 3 + r.Intn(6)
	for i := 0; i < n; i++ {
		switch op := r.Intn(12); {
		case op < addBias:
			b.Add(next)
			c.Trace("add %d", next)
			cur = append(cur, next)
			next++
			if r.Intn(2) == 0 && b.IsFull() {
				took("size", b.Flush(batching.CurrentBatch))
			}
		case op == addBias:
			took("current", b.Flush(batching.CurrentBatch))
		case op == addBias+1: // the armed timer fires
			k := tm.pick(r, true)
			if k == nil {
				if len(cur) > 0 && p.MaxDelay > 0 {
					c.Fail("unarmed", "%d items pending with a maximum delay but no time-out is armed", len(cur))
				}
				continue
			}
			if k.d != p.MaxDelay {
				c.Fail("delay", "time-out armed with %v, maximum delay is %v", k.d, p.MaxDelay)
			}
			t := fire(k)
			if k.gen != gen {
				c.Trace("armed timer belongs to batch %d, now %d", k.gen, gen)
			}
			if r.Intn(3) > 0 && t.gen == gen {
				took("fresh token", b.Flush(t.t))
				c.Count("timeout_batches", 1)
			}
			tokens = append(tokens, t)
		case op == addBias+2: // any timer fires, as one already running when it was stopped
			if k := tm.pick(r, false); k != nil {
				tokens = append(tokens, fire(k))
			}
		default:
			if len(tokens) == 0 {
				continue
			}
			t := tokens[r.Intn(len(tokens))]
			res := b.Flush(t.t)
			if t.gen == gen {
				took("token", res)
			} else {
				stale++
				c.Count("stale_tokens", 1)
				if len(res) != 0 {
					c.Fail("stale", "token of batch %d flushed %v of batch %d", t.gen, res, gen)
				}
			}
		}
		if full := b.IsFull(); full != (len(cur) >= size) {
			c.Fail("full", "IsFull %v with %d pending of %d", full, len(cur), size)
		}
	}
	took("final", b.Flush(batching.CurrentBatch))
	for i := range got {
		if !slices.Equal(got[i], want[i]) {
			c.Fail("mutated", "batch %d was %v when handed out, now %v", i, want[i], got[i])
		}
	}
	if len(got) > 1 && stale > 0 {
		c.NonTrivial(fmt.Sprint(want))
		c.Sample("max size %d delay %v: batches %v, %d stale tokens", p.MaxSize, p.MaxDelay, want, stale)
	}
}

// wrap: tokens which come very late, at every distance from their batch.
func wrap(c *vlib.Case) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tm := &timer{tag: func() int { return 0 }}
	b := batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxSize: 2, MaxDelay: time.Second, Timer: tm})
	n := 70_000
	if c.Tier == "thorough" {
		n = 300_000
	}
	first := r.Intn(300)
	var held []batching.BatchToken
	var of []int
	next := 0
	for g := 0; g < n; g++ {
		b.Add(next)
		want := []int{next}
		next++
		if g == first || g == first+1 || len(held) < 6 && r.Intn(n/8) == 0 {
			k := tm.pick(r, true)
			tm.mu.Lock()
			tm.all = nil
			tm.mu.Unlock()
			if k == nil {
				c.Fail("unarmed", "batch %d has an item and a maximum delay but no time-out is armed", g)
			}
			go k.do()
			held, of = append(held, <-b.BatchTimedOut), append(of, g)
		} else {
			tm.mu.Lock()
			tm.all = nil
			tm.mu.Unlock()
			for i, t := range held {
				if res := b.Flush(t); len(res) != 0 {
					c.Fail("stale", "the token of batch %d flushed %v of batch %d, %d batches later", of[i], res, g, g-of[i])
				}
				c.Count("old_tokens", 1)
			}
		}
		if g%3 == 0 {
			b.Add(next)
			want = append(want, next)
			next++
		}
		if res := b.Flush(batching.CurrentBatch); !slices.Equal(res, want) {
			c.Fail("batch", "batch %d is %v, want %v", g, res, want)
		}
	}
	c.NonTrivial(fmt.Sprint(of))
}

// clock: the system timer under virtual time.
func clock(c *vlib.Case) {
	synctest.Run(func() { clockBubble(c) })
}

func clockBubble(c *vlib.Case) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	delay := time.Duration(1+r.Intn(50)) * time.Millisecond
	size := 1 + r.Intn(8)
	b := batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: delay, MaxSize: size})
	var mu sync.Mutex
	added := map[int]time.Time{}
	out := 0
	lag := time.Duration(0)
	if r.Intn(2) == 0 {
		lag = time.Duration(r.Intn(30)) * time.Millisecond
	}
	stale, timed, batches := 0, 0, 0
	take := func(how string, flush func() []int) int {
		mu.Lock()
		defer mu.Unlock()
		res := flush()
		if len(res) == 0 {
			return 0
		}
		batches++
		now := time.Now()
		for _, x := range res {
			if x != out {
				c.Report("order", "%s flush returned %v, expected next item %d", how, res, out)
			}
			out = x + 1
		}
		age := now.Sub(added[res[0]])
		if how == "token" && age < delay {
			c.Report("early", "a time-out flushed a batch only %v old, delay %v", age, delay)
		}
		if lag == 0 && age > delay { // with a lag stale tokens can queue up before this one
			c.Report("late", "batch %v waited %v, delay %v", res, age, delay)
		}
		return len(res)
	}
	go func() {
		for {
			select {
			case <-ctx.Done():
				return
			case tok := <-b.BatchTimedOut:
				// after the lag the token may have become stale
				time.Sleep(lag)
				if take("token", func() []int { return b.Flush(tok) }) == 0 {
					stale++
				} else {
					timed++
				}
			}
		}
	}()
	n := 5 + r.Intn(60)
	for i := 0; i < n; i++ {
		mu.Lock()
		added[i] = time.Now()
		b.Add(i)
		mu.Unlock()
		if b.IsFull() || r.Intn(12) == 0 {
			take("current", func() []int { return b.Flush(batching.CurrentBatch) })
		}
		switch r.Intn(4) {
		case 0:
			time.Sleep(time.Duration(r.Intn(int(2 * delay))))
		case 1:
			time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
		}
	}
	time.Sleep(delay + 100*lag) // the last batch has to time out
	synctest.Wait()
	mu.Lock()
	if out != n {
		c.Report("stuck", "%d of %d items handed out after the maximum delay", out, n)
	}
	mu.Unlock()
	c.Count("timeout_batches", timed)
	c.Count("clock_stale_tokens", stale)
	c.Count("batches", batches)
	if timed > 0 && batches > 1 {
		c.NonTrivial(n, delay, size, timed, stale)
	}
	cancel()
	synctest.Wait()
}

func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		for i := r.Intn(20); i > 0; i-- {
			runtime.Gosched()
		}
	case 1:
		if r.Intn(8) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
}

func conc(c *vlib.Case) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tm := &timer{tag: func() int { return 0 }}
	size := 1 + r.Intn(10)
	b := batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: time.Minute, MaxSize: size, Timer: tm})
	type ev struct {
		begin, end int64
		items      []int
	}
	var stamp atomic.Int64
	var mu sync.Mutex
	var evs []ev
	flush := func(t batching.BatchToken) {
		e := ev{begin: stamp.Add(1)}
		e.items = b.Flush(t)
		e.end = stamp.Add(1)
		if len(e.items) > 0 {
			mu.Lock()
			evs = append(evs, e)
			mu.Unlock()
		}
	}
	var wg, tg sync.WaitGroup
	stop := make(chan struct{})
	for k := 0; k < 1+r.Intn(4); k++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				jitter(rr)
				if rr.Intn(3) == 0 || b.IsFull() {
					flush(batching.CurrentBatch)
				}
				runtime.Gosched()
			}
		}()
	}
	wg.Add(2)
	rt := rand.New(rand.NewSource(r.Int63()))
	go func() { // timers firing
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			if k := tm.pick(rt, rt.Intn(2) == 0); k != nil {
				tg.Add(1)
				go func() { defer tg.Done(); k.do() }()
			}
			jitter(rt)
			runtime.Gosched()
		}
	}()
	go func() { // time-out receiver
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			case t := <-b.BatchTimedOut:
				flush(t)
				c.Count("timer_flushes", 1)
			}
		}
	}()
	n := 200 + r.Intn(1500)
	for i := 0; i < n; i++ {
		b.Add(i)
		if b.IsFull() && r.Intn(3) > 0 {
			flush(batching.CurrentBatch)
		}
		jitter(r)
	}
	close(stop)
	wg.Wait()
	cancel()
	tg.Wait()
	flush(batching.CurrentBatch)
	sort.Slice(evs, func(i, j int) bool { return evs[i].items[0] < evs[j].items[0] })
	next := 0
	for i, e := range evs {
		for _, x := range e.items {
			if x != next {
				c.Fail("sequence", "batch %v in place of item %d of %d", e.items, next, n)
			}
			next++
		}
		if i > 0 && e.end < evs[i-1].begin {
			c.Fail("order", "batch %v was handed out before %v", e.items, evs[i-1].items)
		}
	}
	if next != n {
		c.Fail("lost", "%d of %d items handed out", next, n)
	}
	c.Count("conc_batches", len(evs))
	c.Distinct("conc_interleavings", fmt.Sprint(len(evs), n))
	c.NonTrivial(n, len(evs))
}

func fetcher(c *vlib.Case, faults bool) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tm := &timer{tag: func() int { return 0 }}
	params := batching.EventBatcherParams{MaxSize: 1 + r.Intn(8), MaxDelay: time.Hour, Timer: tm}
	if r.Intn(10) == 0 {
		params.MaxSize = 0
	}
	mode := r.Intn(3) // completion order: immediate, random delay, gated
	n := 20 + r.Intn(250)
	if r.Intn(40) == 0 {
		n, params.MaxSize = 3000+r.Intn(3000), 200+r.Intn(2000)
		c.Count("large_batches", 1)
	}
	failAt := -1
	if faults {
		failAt = r.Intn(n * 3 / 4)
	}
	// What a batch's fetch returns for each item; it may be nothing at all for the whole batch
	multi, salt := r.Intn(3) == 0, r.Intn(1000)
	results := func(i int) (out []string) {
		k := 1
		if multi {
			k = max(0, (i*7919+salt)%11-7)
			if faults {
				k++
			}
		}
		for j := 0; j < k; j++ {
			out = append(out, fmt.Sprint("r", i, "/", j))
		}
		return
	}
	var want []string
	failFrom := 0 // index of the failing item's first result
	for i := 0; i < n; i++ {
		if i == failAt {
			failFrom = len(want)
		}
		want = append(want, results(i)...)
	}
	hr := rand.New(rand.NewSource(r.Int63()))
	var hmu sync.Mutex
	vhook.Set(func(p string) {
		if p != "batching.flush" {
			return
		}
		hmu.Lock()
		k, sl := hr.Intn(30), hr.Intn(25) == 0
		hmu.Unlock()
		for ; k > 10; k-- {
			runtime.Gosched()
		}
		if sl {
			time.Sleep(50 * time.Microsecond)
		}
	})
	defer vhook.Set(nil)

	var mu sync.Mutex
	var fetched []int
	var completions []int
	var held []chan struct{}
	release := func(all bool, rr *rand.Rand) {
		mu.Lock()
		defer mu.Unlock()
		if all {
			for _, h := range held {
				close(h)
			}
			held = nil
		} else if len(held) > 0 {
			i := rr.Intn(len(held))
			close(held[i])
			held = append(held[:i], held[i+1:]...)
		}
	}
	fr := rand.New(rand.NewSource(r.Int63()))
	errBoom := errors.New("fetch failed")
	var draining atomic.Bool
	errChan := make(chan error, 8)
	buf := r.Intn(6)
	if r.Intn(3) == 0 {
		buf = 50
	}
	rf := batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[int, string]{
		Batcher: batching.NewEventBatcher[int](ctx, params),
		FetchBatch: func(ctx context.Context, events []int) ([]string, error) {
			mu.Lock()
			fetched = append(fetched, events...)
			first := events[0]
			d := fr.Intn(5)
			var gate chan struct{}
			if mode == 2 && !draining.Load() {
				gate = make(chan struct{})
				held = append(held, gate)
			}
			mu.Unlock()
			switch {
			case gate != nil:
				<-gate
			case mode == 1 && d == 0:
				time.Sleep(200 * time.Microsecond)
			case mode == 1:
				for ; d > 0; d-- {
					runtime.Gosched()
				}
			}
			mu.Lock()
			completions = append(completions, first)
			mu.Unlock()
			c.Count("fetch_batches", 1)
			if failAt >= 0 && slices.Contains(events, failAt) {
				c.Count("fetch_errors", 1)
				return nil, errBoom
			}
			out := []string{}
			for _, e := range events {
				out = append(out, results(e)...)
			}
			if len(out) == 0 {
				c.Count("empty_results", 1)
			}
			return out, nil
		},
		ErrChan:    errChan,
		BufferSize: buf,
	})

	stop := make(chan struct{})
	var wg, tg sync.WaitGroup
	spawn := func(f func(rr *rand.Rand)) {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				f(rr)
				jitter(rr)
				runtime.Gosched()
			}
		}()
	}
	if mode == 2 {
		spawn(func(rr *rand.Rand) { release(false, rr) })
	}
	for k := r.Intn(3); k > 0; k-- { // explicit flushers
		spawn(func(rr *rand.Rand) {
			if rr.Intn(3) == 0 {
				rf.Flush(ctx)
			}
		})
	}
	if r.Intn(4) > 0 { // time-outs
		var inFlight atomic.Int32
		spawn(func(rr *rand.Rand) {
			if inFlight.Load() > 3 {
				return
			}
			if k := tm.pick(rr, rr.Intn(3) > 0); k != nil {
				inFlight.Add(1)
				tg.Add(1)
				go func() { defer tg.Done(); k.do(); inFlight.Add(-1); c.Count("timer_flushes", 1) }()
			}
		})
	}
	slow := r.Intn(3) == 0
	got := make(chan string, len(want)+10)
	go func() { // consumer
		rr := rand.New(rand.NewSource(c.Seed))
		for {
			select {
			case <-ctx.Done():
				return
			case x := <-rf.Output:
				got <- x
				if slow {
					jitter(rr)
				}
			}
		}
	}()
	added := make(chan struct{})
	ar := rand.New(rand.NewSource(r.Int63()))
	go func() {
		defer close(added)
		for i := 0; i < n; i++ {
			rf.Add(ctx, i)
			jitter(ar)
		}
		draining.Store(true)
		release(true, nil)
		rf.Flush(ctx)
	}()
	outs := 0
	var fetchErr error
	deadline := time.After(30 * time.Second)
	var settle <-chan time.Time
	accept := func(x string) {
		if x != want[outs] {
			c.Fail("output", "output %d is %q (mode %d, size %d, buffer %d, failing %d)", outs, x, mode, params.MaxSize, buf, failAt)
		}
		outs++
		c.Count("outputs", 1)
	}
loop:
	for outs < len(want) {
		select {
		case x := <-got:
			accept(x)
		case fetchErr = <-errChan:
			if !faults {
				c.Fail("error", "unexpected error %v", fetchErr)
			}
			settle = time.After(15 * time.Millisecond) // whatever else is emitted now must continue the sequence
		case <-settle:
			break loop
		case <-deadline:
			c.Fail("stalled", "%d of %d results after 30 s (mode %d, size %d, buffer %d, failing %d)", outs, len(want), mode, params.MaxSize, buf, failAt)
		}
	}
	draining.Store(true)
	release(true, nil)
	if !faults {
		<-added
		close(stop)
		wg.Wait()
		select {
		case x := <-got:
			c.Fail("extra", "extra output %q", x)
		case <-time.After(time.Millisecond):
		}
		cancel()
		tg.Wait()
	} else {
		if fetchErr == nil {
			c.Fail("error-lost", "the failed fetch of %d was not reported although all %d results came out", failAt, outs)
		}
		if outs > failFrom {
			c.Fail("past-failure", "%d results emitted although item %d failed", outs, failAt)
		}
		close(stop)
		cancel()
	}
	mu.Lock()
	defer mu.Unlock()
	seen := map[int]bool{}
	for _, x := range fetched {
		if seen[x] {
			c.Fail("fetched-twice", "item %d was fetched twice", x)
		}
		seen[x] = true
	}
	ooo := 0
	for i := 1; i < len(completions); i++ {
		if completions[i] < completions[i-1] {
			ooo++
		}
	}
	c.Count("out_of_order_completions", ooo)
	c.Distinct("completion_orders", fmt.Sprint(completions))
	if ooo > 0 || faults {
		c.NonTrivial(fmt.Sprint(completions))
		c.Sample("size %d buffer %d mode %d: %d items, completion order (first items) %v", params.MaxSize, buf, mode, n, completions)
	}
}
