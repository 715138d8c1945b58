// Package dkvx holds what the database checks share: an observing, gating and
// fault-injecting file system, and a reference map.
package dkvx

import (
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"reduction.dev/reduction/dkv/storage"
	"verif/harness/s3x"
)

// Event is one mutation of the file system.
type Event struct {
	Op   string // "save", "delete"
	Path string // absolute
	Err  bool
}

var ErrInjected = errors.New("injected file system fault")

// FS wraps a memory file system. Files are recorded when they become durable and when
// they are removed. Before* callbacks run on the goroutine of the operation, outside any
// lock of FS, and may block or return an error to inject a fault.
type FS struct {
	b  backend
	sh *shared
}

// backend is one of the repository's file systems. Absolute paths have no scheme.
type backend interface {
	storage.FileSystem
	Exists(path string) bool
	at(dir string) backend
	list() []string
	open(path string) storage.File // by absolute path
	create(path string) storage.File
	fresh() backend
	// failing has the store itself refuse to save the file, if the backend has a store
	failing(path string, err error, save func() error) error
}

type mem struct{ *storage.MemoryFilesystem }

func (m mem) at(dir string) backend         { return mem{m.WithWorkingDir(dir)} }
func (m mem) open(path string) storage.File { return m.Open(path) }
func (m mem) create(p string) storage.File  { return m.New(p) }
func (m mem) fresh() backend                { return mem{storage.NewMemoryFilesystem()} }
func (m mem) list() []string {
	l := m.WithWorkingDir("/").List()
	for i := range l {
		l[i] = "/" + l[i]
	}
	return l
}
func (m mem) failing(_ string, err error, _ func() error) error { return err }

const bucket = "bucket-1"

type s3 struct {
	*storage.S3FileSystem
	b *s3x.Bucket
}

func newS3(b *s3x.Bucket, dir string) s3 {
	return s3{storage.NewS3FileSystem(b, bucket, strings.Trim(dir, "/")), b}
}

func (f s3) Exists(path string) bool {
	return f.b.Has(bucket + Path(path))
}
func (f s3) at(dir string) backend         { return newS3(f.b, dir) }
func (f s3) open(path string) storage.File { return f.Open("s3://" + bucket + Path(path)) }
func (f s3) create(p string) storage.File  { return newS3(f.b, "").New(strings.TrimPrefix(p, "/")) }
func (f s3) fresh() backend                { return newS3(s3x.New(1000, nil), "") }
func (f s3) list() (l []string) {
	for k := range f.b.All() {
		l = append(l, strings.TrimPrefix(k, bucket))
	}
	slices.Sort(l)
	return
}
func (f s3) failing(path string, err error, save func() error) error {
	f.b.Refuse(bucket+path, err)
	defer f.b.Refuse(bucket+path, nil)
	return save()
}

type shared struct {
	mu           sync.Mutex
	events       []Event
	beforeSave   func(path string) error
	beforeDelete func(path string) error
	beforeRead   func(path string) error
	saves        map[string]int
}

// NewFS makes an empty file system.
func NewFS() *FS {
	return newFS(mem{}.fresh())
}

// NewS3 makes an empty file system whose files are objects in a bucket.
func NewS3() *FS { return newFS(s3{}.fresh()) }

// Either makes a file system of one kind or the other.
func Either(c interface{ Count(string, int) }, r *rand.Rand) *FS {
	if r.Intn(3) == 0 {
		c.Count("on_s3", 1)
		return NewS3()
	}
	return NewFS()
}

func newFS(b backend) *FS { return &FS{b: b, sh: &shared{saves: map[string]int{}}} }

// At returns a view with another working directory, sharing files, log and callbacks.
func (f *FS) At(dir string) *FS {
	return &FS{b: f.b.at(dir), sh: f.sh}
}

// OnSave installs the callback that runs before a file becomes durable.
func (f *FS) OnSave(fn func(path string) error) {
	f.sh.mu.Lock()
	f.sh.beforeSave = fn
	f.sh.mu.Unlock()
}

// OnDelete installs the callback that runs before a file is removed.
func (f *FS) OnDelete(fn func(path string) error) {
	f.sh.mu.Lock()
	f.sh.beforeDelete = fn
	f.sh.mu.Unlock()
}

// OnRead installs the callback that runs before every ReadAt.
func (f *FS) OnRead(fn func(path string) error) {
	f.sh.mu.Lock()
	f.sh.beforeRead = fn
	f.sh.mu.Unlock()
}

// Events returns a copy of the log.
func (f *FS) Events() []Event {
	f.sh.mu.Lock()
	defer f.sh.mu.Unlock()
	return append([]Event(nil), f.sh.events...)
}

// Saves returns how often a file of that base name suffix was saved.
func (f *FS) Saves(suffix string) int {
	f.sh.mu.Lock()
	defer f.sh.mu.Unlock()
	n := 0
	for p, k := range f.sh.saves {
		if strings.HasSuffix(p, suffix) {
			n += k
		}
	}
	return n
}

// Exists reports whether the file at a path or URI is present.
func (f *FS) Exists(uri string) bool { return f.b.Exists(uri) }

func (f *FS) log(e Event) {
	f.sh.mu.Lock()
	f.sh.events = append(f.sh.events, e)
	if e.Op == "save" && !e.Err {
		f.sh.saves[e.Path]++
	}
	f.sh.mu.Unlock()
}

func abs(file storage.File) string { return Path(file.URI()) }

func (f *FS) New(path string) storage.File {
	return &file{File: f.b.New(path), fs: f}
}

func (f *FS) Open(path string) storage.File {
	return &file{File: f.b.Open(path), fs: f}
}

func (f *FS) Copy(src, dst string) error {
	if err := f.b.Copy(src, dst); err != nil {
		return err
	}
	f.log(Event{Op: "save", Path: dst})
	return nil
}

type file struct {
	storage.File
	fs *FS
}

func (x *file) Save() error {
	x.fs.sh.mu.Lock()
	cb := x.fs.sh.beforeSave
	x.fs.sh.mu.Unlock()
	p := abs(x.File)
	if cb != nil {
		if err := cb(p); err != nil {
			err = x.fs.b.failing(p, err, x.File.Save)
			x.fs.log(Event{"save", p, true})
			return err
		}
	}
	err := x.File.Save()
	x.fs.log(Event{"save", p, err != nil})
	return err
}

func (x *file) ReadAt(p []byte, off int64) (int, error) {
	x.fs.sh.mu.Lock()
	cb := x.fs.sh.beforeRead
	x.fs.sh.mu.Unlock()
	if cb != nil {
		if err := cb(abs(x.File)); err != nil {
			return 0, err
		}
	}
	if !x.fs.Exists(x.File.URI()) { // files keep what they have read, which isn't relied on
		if n, err := x.File.ReadAt(p, off); err != nil {
			return n, err
		}
		return 0, fmt.Errorf("%s: %w", x.File.URI(), storage.ErrNotFound)
	}
	return x.File.ReadAt(p, off)
}

func (x *file) Delete() error {
	return x.fs.del(abs(x.File), x.File.Delete)
}

func (x *file) CreateDeleteFunc() func() error {
	fs, p, fn := x.fs, abs(x.File), x.File.CreateDeleteFunc()
	return func() error { return fs.del(p, fn) }
}

func (f *FS) del(p string, fn func() error) error {
	f.sh.mu.Lock()
	cb := f.sh.beforeDelete
	f.sh.mu.Unlock()
	if cb != nil {
		if err := cb(p); err != nil {
			f.log(Event{"delete", p, true})
			return err
		}
	}
	err := fn()
	f.log(Event{"delete", p, err != nil})
	return err
}

// Base is the last path element.
func Base(p string) string { return filepath.Base(p) }

// Short renders bytes for messages.
func Short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Clone copies the durable files of all directories: what a crash at this instant leaves.
// The copy has its own log and no callbacks.
func (f *FS) Clone() *FS {
	n := newFS(f.b.fresh())
	for _, p := range f.b.list() {
		b, err := storage.ReadAll(f.b.open(p))
		if errors.Is(err, storage.ErrNotFound) {
			continue // removed meanwhile
		}
		w := n.b.create(p)
		if len(b) > 0 {
			w.Write(b)
		}
		w.Save()
	}
	return n
}

// List names the files under the root.
func (f *FS) List() []string { return f.b.list() }

// Read returns the durable content of a file.
func (f *FS) Read(path string) ([]byte, error) {
	return storage.ReadAll(f.b.open(path))
}

// Wipe removes all files.
func (f *FS) Wipe() {
	for _, p := range f.b.list() {
		f.b.open(p).Delete()
	}
}

// Wait waits for the background tasks of a database. Databases of one process share their
// task queues, so a task may be started by the goroutine of another database's task while
// this one's are waited for; sync.WaitGroup may refuse that with a panic.
func Wait(db interface{ WaitOnTasks() error }) error {
	for {
		err, ok := wait1(db)
		if ok {
			return err
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func wait1(db interface{ WaitOnTasks() error }) (err error, ok bool) {
	defer func() {
		if ok {
			return
		}
		if x := recover(); x != nil && !strings.Contains(fmt.Sprint(x), "WaitGroup") {
			panic(x)
		}
	}()
	return db.WaitOnTasks(), true
}
