package dkvx

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/dkv"
)

// Gate blocks file operations whose path satisfies Hold until they are released.
type Gate struct {
	mu   sync.Mutex
	hold func(path string) bool
	held []*heldOp
	Max  int // operations held at once; further ones pass
}

type heldOp struct {
	path string
	ch   chan error
}

// Set replaces the predicate; nil lets everything pass.
func (g *Gate) Set(hold func(path string) bool) {
	g.mu.Lock()
	g.hold = hold
	g.mu.Unlock()
}

// Pass is the callback for FS.OnSave and friends.
func (g *Gate) Pass(path string) error {
	g.mu.Lock()
	if g.hold == nil || !g.hold(path) || (g.Max > 0 && len(g.held) >= g.Max) {
		g.mu.Unlock()
		return nil
	}
	h := &heldOp{path, make(chan error, 1)}
	g.held = append(g.held, h)
	g.mu.Unlock()
	// The workload itself may be stuck behind the held operation (bounded task queues).
	t := time.NewTimer(25 * time.Millisecond)
	defer t.Stop()
	select {
	case err := <-h.ch:
		return err
	case <-t.C:
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	for i := range g.held {
		if g.held[i] == h {
			g.held = append(g.held[:i:i], g.held[i+1:]...)
			return nil
		}
	}
	return <-h.ch
}

// Held lists the paths of the blocked operations in arrival order.
func (g *Gate) Held() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	var l []string
	for _, h := range g.held {
		l = append(l, h.path)
	}
	return l
}

// Release lets the i-th blocked operation continue with the given result.
func (g *Gate) Release(i int, err error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if i >= len(g.held) {
		return
	}
	g.held[i].ch <- err
	g.held = append(g.held[:i:i], g.held[i+1:]...)
}

// Free releases everything, now and in future.
func (g *Gate) Free() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.hold = nil
	for _, h := range g.held {
		h.ch <- nil
	}
	g.held = nil
}

// Settle yields until cond holds or the time is over.
func Settle(d time.Duration, cond func() bool) bool {
	start := time.Now()
	for end := start.Add(d); ; {
		n, pause := 50, 20*time.Microsecond
		if time.Since(start) > 5*time.Millisecond { // others need the processors
			n, pause = 1, time.Millisecond
		}
		for i := 0; i < n; i++ {
			if cond() {
				return true
			}
			runtime.Gosched()
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(pause)
	}
}

// Layout renders the number of tables per level.
func Layout(db *dkv.DB) string {
	var s []string
	for _, l := range strings.Split(db.Diagnostics(), "\n") {
		if strings.HasPrefix(l, "level ") && strings.Contains(l, "tables") {
			var a, b, z int
			fmt.Sscanf(l, "level %d, tables %d, size %d", &a, &b, &z)
			s = append(s, fmt.Sprint(b))
		}
	}
	return strings.Join(s, ",")
}

// Sealed is the number of memtables waiting to be flushed.
func Sealed(db *dkv.DB) int {
	for _, l := range strings.Split(db.Diagnostics(), "\n") {
		var k int
		if c, _ := fmt.Sscanf(l, "MemTables (num: %d)", &k); c == 1 {
			return k - 1
		}
	}
	return 0
}
