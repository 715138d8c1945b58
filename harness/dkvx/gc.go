package dkvx

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
)

// GC collects garbage and gives the cleanups of what was found time to run.
func GC() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		func() {
			x := new([64]byte)
			x[0] = 1
			runtime.AddCleanup(x, func(ch chan struct{}) { close(ch) }, done)
		}()
		runtime.GC()
		select {
		case <-done:
		case <-time.After(20 * time.Millisecond):
		}
		time.Sleep(50 * time.Microsecond)
	}
}

// readOnly never lets the tables of an inspected checkpoint be deleted.
type readOnly struct{}

func (readOnly) OwnsKey([]byte) bool { return true }
func (readOnly) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) {
	return false, nil
}

// Refs lists the files that a checkpoint references: tables and write-ahead logs, as absolute
// paths.
func Refs(fs storage.FileSystem, h recovery.CheckpointHandle) (tables, wals []string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("reading checkpoint %v panics: %v", h, p)
		}
	}()
	cl, err := recovery.LoadCheckpointList(fs, readOnly{}, []recovery.CheckpointHandle{h})
	if err != nil {
		return nil, nil, err
	}
	cp := cl.Latest()
	for _, l := range cp.Levels.Document() {
		for _, t := range l {
			tables = append(tables, Path(t.URI))
		}
	}
	for _, w := range cp.WALs {
		wals = append(wals, Path(w.URI()))
	}
	return tables, wals, nil
}

// Path strips the scheme.
func Path(uri string) string {
	return strings.TrimPrefix(strings.TrimPrefix(uri, "memory://"), "s3://"+bucket)
}
