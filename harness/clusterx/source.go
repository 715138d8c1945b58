package clusterx

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
)

// SplitState is how a reader marshals a position.
func SplitState(s, cursor int) []byte { return []byte(fmt.Sprintf("%d=%d", s, cursor)) }

// ParseSplitState reverses SplitState.
func ParseSplitState(b []byte) (s, cursor int) {
	a, c, ok := strings.Cut(string(b), "=")
	if !ok {
		return -1, -1
	}
	s, _ = strconv.Atoi(a)
	cursor, _ = strconv.Atoi(c)
	return
}

// source is the job's source configuration.
type source struct{ w *World }

func (s source) Validate() error { return nil }
func (s source) NewSourceSplitter(srIDs []string, hooks connectors.SourceSplitterHooks, errChan chan<- error) connectors.SourceSplitter {
	s.w.rngMu.Lock()
	seed := s.w.rng.Int63()
	s.w.rngMu.Unlock()
	return &splitter{w: s.w, srs: srIDs, hooks: hooks, r: rand.New(rand.NewSource(seed))}
}
func (s source) NewSourceReader(connectors.SourceReaderHooks) connectors.SourceReader {
	panic("readers are made by the workers")
}
func (s source) ProtoMessage() *jobconfigpb.Source { return &jobconfigpb.Source{} }

type splitter struct {
	w     *World
	srs   []string
	hooks connectors.SourceSplitterHooks
	r     *rand.Rand
	done  atomic.Bool
}

func (s *splitter) IsSourceSplitter() {}
func (s *splitter) Close() error      { s.done.Store(true); return nil }
func (s *splitter) NotifySplitsFinished(string, []string) {
}
func (s *splitter) Checkpoint() []byte { return []byte("splitter") }
func (s *splitter) Start(k *snapshotpb.SourceCheckpoint) error {
	if len(s.srs) == 0 {
		return fmt.Errorf("no source runners")
	}
	cur := map[int][]byte{}
	for _, b := range k.GetSplitStates() {
		id, c := ParseSplitState(b)
		if id < 0 || id >= len(s.w.In.Splits) {
			s.w.report("positions", "the splitter is restored with the unknown split state %q", b)
			continue
		}
		if _, ok := cur[id]; ok {
			s.w.report("positions", "the splitter is restored with two positions of split %d", id)
		}
		_ = c
		cur[id] = b
	}
	if k != nil && len(cur) != len(s.w.In.Splits) {
		s.w.report("positions", "the splitter is restored with positions of %d of %d splits", len(cur), len(s.w.In.Splits))
	}
	order := s.r.Perm(len(s.w.In.Splits))
	spread := s.r.Perm(len(s.srs))
	parts := 1
	if !s.w.P.EOI { // else a reader may end before it gets more
		parts += s.r.Intn(2)
	}
	for p := 0; p < parts; p++ {
		as := map[string][]*workerpb.SourceSplit{}
		for i, id := range order {
			if i%parts != p {
				continue
			}
			sr := s.srs[s.r.Intn(len(s.srs))]
			if i < len(spread) {
				sr = s.srs[spread[i]]
			}
			as[sr] = append(as[sr], &workerpb.SourceSplit{SplitId: strconv.Itoa(id), SourceId: "source", Cursor: cur[id]})
		}
		s.hooks.AssignSplits(as)
	}
	return nil
}

// reader reads a source runner's splits.
type reader struct {
	w  *World
	p  *Proc
	r  *rand.Rand
	mu sync.Mutex

	cursors map[int]int
	order   []int
	errs    int
	ended   bool // the end event was emitted
}

func (r *reader) AssignSplits(splits []*workerpb.SourceSplit) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range splits {
		id, err := strconv.Atoi(s.SplitId)
		if err != nil {
			return err
		}
		c := 0
		if len(s.Cursor) > 0 {
			_, c = ParseSplitState(s.Cursor)
		}
		if _, ok := r.cursors[id]; ok {
			r.w.report("split-twice", "split %d is assigned twice to %s", id, r.p.ID)
			continue
		}
		r.cursors[id] = c
		r.order = append(r.order, id)
		r.ended = false
	}
	return nil
}

func (r *reader) ReadEvents() ([][]byte, error) {
	r.w.hold.RLock()
	r.w.hold.RUnlock()
	r.mu.Lock()
	var open []int
	for _, s := range r.order {
		if r.cursors[s] < len(r.w.In.Splits[s]) {
			open = append(open, s)
		}
	}
	d := time.Duration(0)
	if r.w.P.Pause > 0 {
		d = time.Duration(r.r.Int63n(int64(r.w.P.Pause)))
	}
	if len(open) == 0 {
		if r.w.P.Timers && !r.ended && len(r.order) > 0 {
			r.ended = true
			r.mu.Unlock()
			return [][]byte{[]byte("end:0")}, nil
		}
		r.mu.Unlock()
		if _, zero := r.cursors[0]; r.w.P.EOI && !zero {
			return nil, connectors.ErrEndOfInput
		}
		time.Sleep(300 * time.Microsecond)
		return nil, nil
	}
	r.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.w.P.ReadErrs && r.errs < 3 && r.r.Intn(60) == 0 {
		r.errs++
		r.w.C.Count("read_errors", 1)
		return nil, connectors.NewRetryableError(fmt.Errorf("injected read error"))
	}
	var out [][]byte
	for i := 1 + r.r.Intn(r.w.P.Reads); i > 0 && len(open) > 0; i-- {
		k := r.r.Intn(len(open))
		s := open[k]
		out = append(out, []byte(fmt.Sprintf("%d:%d", s, r.cursors[s])))
		r.cursors[s]++
		if r.cursors[s] >= len(r.w.In.Splits[s]) {
			open = append(open[:k], open[k+1:]...)
		}
	}
	r.w.read.Add(int64(len(out)))
	if _, zero := r.cursors[0]; len(open) == 0 && r.w.P.EOI && !zero && !r.w.P.Timers && r.r.Intn(2) == 0 {
		return out, connectors.ErrEndOfInput // the last records come with the end
	}
	return out, nil
}

func (r *reader) Checkpoint() [][]byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out [][]byte
	for _, s := range r.order {
		out = append(out, SplitState(s, r.cursors[s]))
	}
	return out
}
