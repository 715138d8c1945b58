// Package snapx drives the job's snapshot store over an observed storage location.
package snapx

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"path"
	"slices"
	"strings"
	"sync"

	"reduction.dev/reduction/storage/locations"
	"verif/harness/dkvx"
)

// ErrCrashed is what operations of a dead process return; they have no effect.
var ErrCrashed = errors.New("process crashed")

// ErrFault is an injected storage fault.
var ErrFault = errors.New("injected storage fault")

// Disk is what survives a crash. URIs with the scheme memory:// are files of the database
// file system, everything else is below Root.
type Disk struct {
	Root  string
	DKV   *dkvx.FS
	mu    sync.Mutex
	files map[string][]byte
	// Wrote and Removing observe the effects, in order, under the disk's lock.
	Writing  func(path string, data []byte)
	Wrote    func(path string, data []byte)
	Removing func(path string, data []byte)
}

// NewDisk makes an empty disk.
func NewDisk(fs *dkvx.FS) *Disk {
	return &Disk{Root: "/job", DKV: fs, files: map[string][]byte{}}
}

// Op is one storage operation waiting at the gate.
type Op struct {
	Kind, Path string
	ch         chan error
}

// Loc is the storage location as one process sees it.
type Loc struct {
	d       *Disk
	eff     sync.RWMutex // read locked during effects
	mu      sync.Mutex
	crashed bool
	gated   bool
	stuck   bool
	held    []*Op
}

// Mount gives a process access to the disk.
func (d *Disk) Mount() *Loc { return &Loc{d: d} }

// Files is a snapshot of the files whose path satisfies the predicate.
func (d *Disk) Files(want func(string) bool) map[string][]byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	out := map[string][]byte{}
	for p, b := range d.files {
		if want(p) {
			out[p] = b
		}
	}
	return out
}

// Crash kills the process.
func (l *Loc) Crash() {
	l.eff.Lock() // effects are over, none begin later
	defer l.eff.Unlock()
	l.mu.Lock()
	l.crashed = true
	for _, o := range l.held {
		o.ch <- ErrCrashed
	}
	l.held = nil
	l.mu.Unlock()
}

// Gate makes operations wait for Release.
func (l *Loc) Gate(on bool) {
	l.mu.Lock()
	l.gated = on
	if !on {
		for _, o := range l.held {
			o.ch <- nil
		}
		l.held = nil
	}
	l.mu.Unlock()
}

// Stuck makes removals fail.
func (l *Loc) Stuck(on bool) {
	l.mu.Lock()
	l.stuck = on
	l.mu.Unlock()
}

// Held lists the waiting operations.
func (l *Loc) Held() []Op {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []Op
	for _, o := range l.held {
		out = append(out, *o)
	}
	return out
}

// Release lets the i-th waiting operation continue.
func (l *Loc) Release(i int, err error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if i < len(l.held) {
		l.held[i].ch <- err
		l.held = slices.Delete(l.held, i, i+1)
	}
}

func (l *Loc) pass(kind, p string) error {
	l.mu.Lock()
	if l.crashed {
		l.mu.Unlock()
		return ErrCrashed
	}
	if l.stuck && kind == "remove" {
		l.mu.Unlock()
		return ErrFault
	}
	if !l.gated {
		l.mu.Unlock()
		return nil
	}
	o := &Op{kind, p, make(chan error, 1)}
	l.held = append(l.held, o)
	l.mu.Unlock()
	err := <-o.ch
	if err != nil {
		return err
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.crashed {
		return ErrCrashed
	}
	return nil
}

// effect runs a change of the disk unless the process is dead.
func (l *Loc) effect(f func() error) error {
	l.eff.RLock()
	defer l.eff.RUnlock()
	l.mu.Lock()
	dead := l.crashed
	l.mu.Unlock()
	if dead {
		return ErrCrashed
	}
	return f()
}

func (l *Loc) abs(p string) string {
	if strings.HasPrefix(p, "memory://") || strings.HasPrefix(p, "/") {
		return p
	}
	return path.Join(l.d.Root, p)
}

func (d *Disk) read(p string) ([]byte, bool) {
	if strings.HasPrefix(p, "memory://") {
		if !d.DKV.Exists(p) {
			return nil, false
		}
		b, err := d.DKV.Read(p)
		return b, err == nil
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	b, ok := d.files[p]
	return b, ok
}

func (d *Disk) write(p string, b []byte) error {
	if strings.HasPrefix(p, "memory://") {
		f := d.DKV.New(p)
		if len(b) > 0 {
			if _, err := f.Write(b); err != nil {
				return err
			}
		}
		return f.Save()
	}
	if d.Writing != nil {
		d.Writing(p, b)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.files[p] = b
	if d.Wrote != nil {
		d.Wrote(p, b)
	}
	return nil
}

func (l *Loc) Write(p string, r io.Reader) (string, error) {
	p = l.abs(p)
	b, err := io.ReadAll(r)
	if err != nil {
		return "", err
	}
	if err := l.pass("write", p); err != nil {
		return "", err
	}
	return p, l.effect(func() error { return l.d.write(p, b) })
}

func (l *Loc) Read(p string) ([]byte, error) {
	p = l.abs(p)
	if err := l.pass("read", p); err != nil {
		return nil, err
	}
	b, ok := l.d.read(p)
	if !ok {
		return nil, fmt.Errorf("%s: %w", p, locations.ErrNotFound)
	}
	return bytes.Clone(b), nil
}

func (l *Loc) List() iter.Seq2[string, error] {
	return func(yield func(string, error) bool) {
		if err := l.pass("list", ""); err != nil {
			yield("", err)
			return
		}
		l.d.mu.Lock()
		ps := slices.Sorted(maps.Keys(l.d.files))
		l.d.mu.Unlock()
		for _, p := range ps {
			if !yield(p, nil) {
				return
			}
		}
	}
}

func (l *Loc) URI(p string) (string, error) {
	p = l.abs(p)
	if err := l.pass("stat", p); err != nil {
		return "", err
	}
	if _, ok := l.d.read(p); !ok {
		return "", locations.ErrNotFound
	}
	return p, nil
}

func (l *Loc) Copy(src, dst string) error {
	src, dst = l.abs(src), l.abs(dst)
	if err := l.pass("copy", dst); err != nil {
		return err
	}
	b, ok := l.d.read(src)
	if !ok {
		return fmt.Errorf("%s: %w", src, locations.ErrNotFound)
	}
	return l.effect(func() error { return l.d.write(dst, bytes.Clone(b)) })
}

func (l *Loc) Remove(ps ...string) error {
	var errs error
	for _, p := range ps {
		p = l.abs(p)
		if err := l.pass("remove", p); err != nil {
			errs = errors.Join(errs, err)
			continue
		}
		errs = errors.Join(errs, l.effect(func() error {
			l.d.mu.Lock()
			defer l.d.mu.Unlock()
			b, ok := l.d.files[p]
			if ok && l.d.Removing != nil {
				l.d.Removing(p, b)
			}
			delete(l.d.files, p)
			return nil
		}))
	}
	return errs
}

var _ locations.StorageLocation = (*Loc)(nil)

// Drop removes files.
func (d *Disk) Drop(f func(p string) bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	maps.DeleteFunc(d.files, func(p string, _ []byte) bool { return f(p) })
}
