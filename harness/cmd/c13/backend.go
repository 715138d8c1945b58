package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/storage/snapshots"
	"verif/harness/s3x"
	"verif/harness/vlib"
)

var errCrashed = errors.New("process crashed")

// proc is a real storage location as one process sees it, which dies at some operation.
type proc struct {
	locations.StorageLocation
	mu    sync.Mutex
	busy  sync.RWMutex // read locked during operations
	left  int          // operations until it dies
	stuck bool
	wrote func(p string, b []byte)
	slow  func() // called in the middle of a write
	fail  func() bool
	after func()
	lost  int // writes which failed
}

var errBroken = errors.New("the data can't be read to its end")

func (p *proc) die() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.left--
	return p.left < 0
}

// slowReader gives its data in two parts.
type slowReader struct {
	parts [][]byte
	mid   func()
}

func (s *slowReader) Read(b []byte) (int, error) {
	if len(s.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(b, s.parts[0])
	if s.parts[0] = s.parts[0][n:]; len(s.parts[0]) == 0 {
		s.parts = s.parts[1:]
		if len(s.parts) == 1 && s.mid != nil {
			s.mid()
		}
	}
	return n, nil
}

func (p *proc) Write(name string, r io.Reader) (string, error) {
	p.busy.RLock()
	defer p.busy.RUnlock()
	if p.die() {
		return "", errCrashed
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return "", err
	}
	if strings.HasSuffix(name, ".snapshot") {
		p.wrote(name, b)
		defer p.after()
		if p.fail() {
			p.mu.Lock()
			p.lost++
			p.mu.Unlock()
			return p.StorageLocation.Write(name, io.MultiReader(bytes.NewReader(b[:len(b)/2]), iotest.ErrReader(errBroken)))
		}
		if p.slow != nil && len(b) > 1 {
			return p.StorageLocation.Write(name, &slowReader{[][]byte{b[:len(b)/2], b[len(b)/2:]}, p.slow})
		}
	}
	return p.StorageLocation.Write(name, bytes.NewReader(b))
}

func (p *proc) Remove(names ...string) error {
	p.busy.RLock()
	defer p.busy.RUnlock()
	for _, n := range names {
		if p.die() {
			return errCrashed
		}
		p.mu.Lock()
		stuck := p.stuck
		p.mu.Unlock()
		if stuck {
			continue
		}
		err := p.StorageLocation.Remove(n)
		if p.after != nil {
			p.after()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// job drives stores over a real storage location.
type job struct {
	c    *vlib.Case
	list func() map[string][]byte // all files, read without the code under test
	mu   sync.Mutex
	seen map[uint64]bool
	max  uint64
	top  uint64 // the newest checkpoint that was in storage
}

// stored looks at storage after an operation there.
func (j *job) stored() {
	j.mu.Lock()
	defer j.mu.Unlock()
	top, _ := j.newest(j.list())
	if top < j.top {
		j.c.Report("removed", "checkpoint %d was the newest completed one, now it's %d", j.top, top)
	}
	j.top = max(j.top, top)
	j.c.Count("looks_at_storage", 1)
}

func (j *job) newest(files map[string][]byte) (uint64, int) {
	var top uint64
	n := 0
	for p, b := range files {
		if path.Ext(p) != ".snapshot" {
			continue
		}
		var k snapshotpb.JobCheckpoint
		if err := proto.Unmarshal(b, &k); err != nil || k.Id == 0 {
			continue
		}
		n++
		top = max(top, k.Id)
	}
	return top, n
}

func (j *job) load(loc locations.StorageLocation, savepoint string, retained chan []uint64) (*snapshots.Store, uint64) {
	s := snapshots.NewStore(&snapshots.NewStoreParams{SavepointURI: savepoint, FileStore: loc, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints", ErrChan: make(chan error, 100), RetainedCheckpointsUpdated: retained})
	func() {
		defer func() {
			if p := recover(); p != nil {
				j.c.Fail("load", "loading the checkpoint panics: %v", p)
			}
		}()
		if err := s.LoadCheckpoint(); err != nil {
			j.c.Fail("load", "loading the checkpoint: %v", err)
		}
	}()
	s.RegisterSourceSplitter(&connectors.UnimplementedSourceSplitter{})
	j.c.Count("starts", 1)
	return s, s.CurrentCheckpoint().GetId()
}

type splitter struct {
	connectors.UnimplementedSourceSplitter
}

func (*splitter) Checkpoint() []byte { return []byte("splitter") }

// run is a history of processes over one location.
func (j *job) run(open func() locations.StorageLocation, seed func(id uint64) string, filler func()) {
	c, r := j.c, j.c.R
	start, startID := "", uint64(0)
	for round, n := 0, 3+r.Intn(5); round < n; round++ {
		want, several := j.newest(j.list())
		if several > 1 {
			c.Count("loads_among_several", 1)
			c.NonTrivial(c.Index, several)
		}
		if start != "" {
			want = startID
			c.Count("starts_from_savepoint", 1)
		}
		p := &proc{StorageLocation: open(), left: 1 << 30, stuck: r.Intn(2) == 0}
		retained := make(chan []uint64, 1000)
		s, got := j.load(p, start, retained)
		c.Trace("process %d (savepoint %q) starts from %d", round, start, got)
		if got != want {
			c.Fail("not-newest", "process %d starts from checkpoint %d, the newest completed one of %d is %d", round, got, several, want)
		}
		if start != "" {
			j.max = max(j.max, startID)
		}
		start = ""
		s.RegisterSourceSplitter(&splitter{})
		p.mu.Lock()
		p.left = r.Intn(12)
		p.wrote = func(name string, b []byte) {
			var k snapshotpb.JobCheckpoint
			proto.Unmarshal(b, &k)
			j.mu.Lock()
			j.seen[k.Id] = true
			j.mu.Unlock()
			c.Count("publications", 1)
		}
		p.mu.Unlock()
		p.after = j.stored
		failing := r.Intn(3) == 0
		fr := rand.New(rand.NewSource(r.Int63()))
		p.fail = func() bool {
			if failing && fr.Intn(3) == 0 {
				c.Count("writes_broken_off", 1)
				return true
			}
			return false
		}
		if r.Intn(2) == 0 {
			p.slow = func() {
				// What if the process ended right here?
				top, _ := j.newest(j.list())
				_, got := j.load(open(), "", nil)
				c.Count("loads_during_a_write", 1)
				if got != top {
					j.c.Report("not-newest", "while a snapshot is being written, a starting process would use checkpoint %d rather than %d", got, top)
				}
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			p.mu.Lock()
			lost := p.lost
			p.mu.Unlock()
			id, err := s.CreateCheckpoint([]string{"op"}, []string{"sr"})
			if err != nil {
				c.Fail("setup", "%v", err)
			}
			if err := s.AddOperatorSnapshot(&snapshotpb.OperatorCheckpoint{CheckpointId: id, OperatorId: "op", DkvFileUri: "dkv"}); err != nil {
				c.Fail("setup", "%v", err)
			}
			if err := s.AddSourceSnapshot(&jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: id, SourceRunnerId: "sr", SplitStates: [][]byte{[]byte(strings.Repeat("s", 1+r.Intn(30)))}}); err != nil {
				c.Fail("setup", "%v", err)
			}
			if r.Intn(2) == 0 {
				filler()
			}
			// Until it's published or the process is dead.
			for t := 0; t < 4000; t++ {
				j.mu.Lock()
				done := s.CurrentCheckpoint().GetId() >= id
				j.mu.Unlock()
				p.mu.Lock()
				dead := p.left < 0 || p.lost > lost
				p.mu.Unlock()
				if done || dead {
					break
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
		if r.Intn(2) == 0 {
			time.Sleep(200 * time.Microsecond) // removals
		}
		p.mu.Lock()
		p.left = 0 // dies here at the latest
		p.mu.Unlock()
		p.busy.Lock() // the operation it's in ends
		p.busy.Unlock()
		c.Count("crashes", 1)
		c.StopIfFailed()
		if r.Intn(3) == 0 {
			j.mu.Lock()
			for id := range j.seen {
				j.max = max(j.max, id)
			}
			j.mu.Unlock()
			if j.max < 1<<61 {
				startID = j.max + gap(c)
				start = seed(startID)
			}
		}
		for len(retained) > 0 {
			<-retained
			c.Count("announcements", 1)
		}
	}
}

func seedBytes(id uint64) []byte {
	b, _ := proto.Marshal(&snapshotpb.JobCheckpoint{Id: id, SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{CheckpointId: id, SourceId: "tbd"}}})
	return b
}

// local uses a real directory.
func local(c *vlib.Case) {
	dir, err := os.MkdirTemp("", "verif-c13-")
	if err != nil {
		c.Fail("setup", "%v", err)
	}
	defer os.RemoveAll(dir)
	list := func() map[string][]byte {
		out := map[string][]byte{}
		filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() {
				if b, err := os.ReadFile(p); err == nil {
					out[p] = b
				}
			}
			return nil
		})
		return out
	}
	n := 0
	j := &job{c: c, list: list, seen: map[uint64]bool{}}
	j.run(func() locations.StorageLocation { return locations.NewLocalDirectory(dir) }, func(id uint64) string {
		p := filepath.Join(dir, "savepoints", fmt.Sprint(id), "job.savepoint")
		os.MkdirAll(filepath.Dir(p), 0777)
		os.WriteFile(p, seedBytes(id), 0666)
		return p
	}, func() {
		n++
		p := filepath.Join(dir, []string{"a", "checkpoints", "z"}[n%3], fmt.Sprint("op", n), "checkpoints")
		os.MkdirAll(filepath.Dir(p), 0777)
		os.WriteFile(p, []byte("{}"), 0666)
	})
}

// s3 uses an S3 location over a bucket with small pages.
func s3(c *vlib.Case) {
	b := s3x.New(1+c.R.Intn(6), func() { c.Count("pages", 1) })
	prefix := []string{"", "/p", "/p/q/"}[c.R.Intn(3)]
	n := 0
	put := func(key string, d []byte) string {
		k := "bucket" + path.Join("/", prefix, key)
		b.Put(k, d)
		return "s3://" + k
	}
	j := &job{c: c, seen: map[uint64]bool{}, list: b.All}
	j.run(func() locations.StorageLocation {
		l, err := locations.NewS3Location(b, "s3://bucket"+prefix)
		if err != nil {
			c.Fail("setup", "%v", err)
		}
		return l
	}, func(id uint64) string { return put(fmt.Sprint("savepoints/", id, "/job.savepoint"), seedBytes(id)) }, func() {
		for i := c.R.Intn(8); i > 0; i-- {
			n++
			put(fmt.Sprint([]string{"a", "checkpoints", "z"}[n%3], "/op", n, "/checkpoints"), []byte("{}"))
		}
	})
}
