package dkvx

import (
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"runtime/debug"
	"strings"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
)

// Quiet discards log output.
var Quiet = slog.New(slog.NewTextHandler(io.Discard, nil))

// Options draws database limits small enough for constant flushing and compaction.
func Options(r *rand.Rand, maxMem int) dkv.DBOptions {
	o := dkv.DBOptions{
		MemTableSize:                uint64(20 + r.Intn(maxMem)),
		TargetFileSize:              uint64(20 + r.Intn(2000)),
		MaxWALSize:                  uint64(20 + r.Intn(3000)),
		L0TableNumCompactionTrigger: 1 + r.Intn(6),
		Logger:                      Quiet,
	}
	if r.Intn(5) == 0 {
		o.L0TableNumCompactionTrigger = 1000
	}
	return o
}

// OpenSafe opens a database and turns a panic into an error.
func OpenSafe(o dkv.DBOptions, hs []recovery.CheckpointHandle) (db *dkv.DB, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("opening from %v panics: %v\n%s", hs, p, debug.Stack())
		}
	}()
	return dkv.Open(o, hs), nil
}

// Write applies a random mutation to the database and the reference.
func Write(r *rand.Rand, db *dkv.DB, m Ref, keys [][]byte, seq *int, big int) string {
	k := keys[r.Intn(len(keys))]
	*seq++
	if r.Intn(4) == 0 {
		db.Delete(append([]byte{}, k...))
		delete(m, string(k))
		return "delete " + Short(k)
	}
	v := fmt.Sprintf("%d", *seq)
	switch r.Intn(8) {
	case 0:
		v = ""
	case 1:
		v += strings.Repeat("x", r.Intn(big))
	}
	db.Put(append([]byte{}, k...), []byte(v))
	m[string(k)] = v
	return "put " + Short(k) + " " + Short([]byte(v))
}

// CheckAll compares every key of the universe and a full scan.
func CheckAll(db *dkv.DB, m Ref, keys [][]byte) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("read panics: %v\n%s", p, debug.Stack())
		}
	}()
	if _, err := CheckScan(db, m, nil); err != nil {
		return err
	}
	for _, k := range keys {
		if err := CheckGet(db, m, k); err != nil {
			return err
		}
	}
	return nil
}
