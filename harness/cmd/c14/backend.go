package main

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"

	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/storage/locations"
	"verif/harness/dkvx"
	"verif/harness/s3x"
	"verif/harness/snapx"
	"verif/harness/vlib"
)

// backend is a kind of storage.
type backend interface {
	Mount() locations.StorageLocation              // as a process of the job sees it
	Working() string                               // location for the operators
	FileSystem(location string) storage.FileSystem // an operator's
	Wipe()                                         // all but the savepoints
	Close()
}

type memory struct {
	disk *snapx.Disk
	fs   *dkvx.FS
}

func newMemory(c *vlib.Case) backend {
	fs := dkvx.NewFS()
	return &memory{snapx.NewDisk(fs), fs}
}
func (m *memory) Mount() locations.StorageLocation         { return m.disk.Mount() }
func (m *memory) Working() string                          { return "/work" }
func (m *memory) FileSystem(loc string) storage.FileSystem { return m.fs.At(loc) }
func (m *memory) Close()                                   {}
func (m *memory) Wipe() {
	m.disk.Drop(func(p string) bool { return !strings.HasPrefix(p, "/job/savepoints/") })
	m.fs.Wipe()
}

type local struct{ dir string }

func newLocal(c *vlib.Case) backend {
	dir, err := os.MkdirTemp("", "verif-c14-")
	if err != nil {
		c.Fail("setup", "%v", err)
	}
	return &local{dir}
}
func (l *local) Mount() locations.StorageLocation         { return locations.NewLocalDirectory(l.dir) }
func (l *local) Working() string                          { return l.dir }
func (l *local) FileSystem(loc string) storage.FileSystem { return storage.NewLocalFilesystem(loc) }
func (l *local) Close()                                   { os.RemoveAll(l.dir) }
func (l *local) Wipe() {
	es, _ := os.ReadDir(l.dir)
	for _, e := range es {
		if e.Name() != "savepoints" {
			os.RemoveAll(filepath.Join(l.dir, e.Name()))
		}
	}
}

type s3 struct {
	c      *vlib.Case
	b      *s3x.Bucket
	prefix string
}

func newS3(c *vlib.Case) backend {
	return &s3{c, s3x.New(1+c.R.Intn(20), nil), []string{"", "/p", "/p/q"}[c.R.Intn(3)]}
}
func (s *s3) Mount() locations.StorageLocation {
	l, err := locations.NewS3Location(s.b, s.Working())
	if err != nil {
		s.c.Fail("setup", "%v", err)
	}
	return l
}
func (s *s3) Working() string { return "s3://bucket" + s.prefix }
func (s *s3) FileSystem(loc string) storage.FileSystem {
	return storage.NewS3FileSystem(s.b, "bucket", strings.TrimPrefix(strings.TrimPrefix(loc, "s3://bucket"), "/"))
}
func (s *s3) Close() {}
func (s *s3) Wipe() {
	keep := "bucket" + s.prefix + "/savepoints/"
	s.b.Drop(func(k string) bool { return !strings.HasPrefix(k, keep) })
}

var errCrashed = errors.New("process crashed")

// proc is what one process of the job does with its storage.
type proc struct {
	locations.StorageLocation
	busy  sync.RWMutex
	done  atomic.Int64
	mu    sync.Mutex
	dead  bool
	gated bool
	held  []chan error
}

func (p *proc) pass() error {
	p.mu.Lock()
	if p.dead || !p.gated {
		defer p.mu.Unlock()
		if p.dead {
			return errCrashed
		}
		return nil
	}
	ch := make(chan error, 1)
	p.held = append(p.held, ch)
	p.mu.Unlock()
	return <-ch
}

// enter waits at the gate and then holds off the crash until leave.
func (p *proc) enter() error {
	if err := p.pass(); err != nil {
		return err
	}
	p.busy.RLock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.dead {
		p.busy.RUnlock()
		return errCrashed
	}
	return nil
}

// leave counts the progress; reads aren't any because the check polls with them.
func (p *proc) leave() {
	p.done.Add(1)
	p.busy.RUnlock()
}

func (p *proc) gate(on bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.gated = on
	if !on {
		for _, ch := range p.held {
			ch <- nil
		}
		p.held = nil
	}
}

func (p *proc) waiting() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.held) }

func (p *proc) release(i int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i < len(p.held) {
		p.held[i] <- nil
		p.held = slices.Delete(p.held, i, i+1)
	}
}

func (p *proc) crash() {
	p.mu.Lock()
	p.dead = true
	for _, ch := range p.held {
		ch <- errCrashed
	}
	p.held = nil
	p.mu.Unlock()
	p.busy.Lock()
	p.busy.Unlock()
}

func (p *proc) Write(name string, r io.Reader) (string, error) {
	if err := p.enter(); err != nil {
		return "", err
	}
	defer p.leave()
	return p.StorageLocation.Write(name, r)
}

func (p *proc) Read(name string) ([]byte, error) {
	if err := p.enter(); err != nil {
		return nil, err
	}
	defer p.busy.RUnlock()
	return p.StorageLocation.Read(name)
}

func (p *proc) Copy(src, dst string) error {
	if err := p.enter(); err != nil {
		return err
	}
	defer p.leave()
	return p.StorageLocation.Copy(src, dst)
}

func (p *proc) Remove(names ...string) error {
	if err := p.enter(); err != nil {
		return err
	}
	defer p.leave()
	return p.StorageLocation.Remove(names...)
}

// files of an operator process, which can no longer be changed after it was killed.
type files struct {
	storage.FileSystem
	l *life
}

type life struct {
	mu   sync.RWMutex
	dead bool
}

func (l *life) end() { l.mu.Lock(); l.dead = true; l.mu.Unlock() }
func (l *life) do(f func() error) error {
	l.mu.RLock()
	defer l.mu.RUnlock()
	if l.dead {
		return fs.ErrClosed
	}
	return f()
}

// must ends the goroutine if the process is dead; what it does is over by the time of end.
func (l *life) must() {
	l.mu.RLock()
	if l.dead {
		l.mu.RUnlock()
		runtime.Goexit()
	}
}

func (f *files) New(p string) storage.File {
	f.l.must()
	defer f.l.mu.RUnlock()
	return &file{f.FileSystem.New(p), f.l}
}
func (f *files) Open(p string) storage.File {
	f.l.must()
	defer f.l.mu.RUnlock()
	return &file{f.FileSystem.Open(p), f.l}
}
func (f *files) Copy(src, dst string) error {
	f.l.must()
	defer f.l.mu.RUnlock()
	return f.FileSystem.Copy(src, dst)
}

type file struct {
	storage.File
	l *life
}

func (f *file) Save() error {
	f.l.must()
	defer f.l.mu.RUnlock()
	return f.File.Save()
}
func (f *file) Write(b []byte) (int, error) {
	f.l.must()
	defer f.l.mu.RUnlock()
	return f.File.Write(b)
}
func (f *file) ReadAt(b []byte, off int64) (int, error) {
	f.l.must()
	defer f.l.mu.RUnlock()
	return f.File.ReadAt(b, off)
}

// Deletions may be cleanups of the garbage collector, whose goroutine must not end.
func (f *file) Delete() error { return f.l.do(f.File.Delete) }
func (f *file) CreateDeleteFunc() func() error {
	d, l := f.File.CreateDeleteFunc(), f.l
	return func() error { return l.do(d) }
}
