package dkvx

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
)

// Ref is the sequential reference map.
type Ref map[string]string

// Clone copies the map.
func (m Ref) Clone() Ref {
	n := make(Ref, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Prefix lists the live keys with the prefix in order.
func (m Ref) Prefix(p string) []string {
	var ks []string
	for k := range m {
		if strings.HasPrefix(k, p) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// Keys is a key universe of adversarial byte strings.
func Keys(r *rand.Rand) [][]byte {
	var ks [][]byte
	switch r.Intn(4) {
	case 0:
		n := 2 + r.Intn(60)
		for i := 0; i < n; i++ {
			ks = append(ks, []byte(fmt.Sprintf("key-%03d", i)))
		}
	case 1: // prefixes of one another, high bytes
		al := []byte{0, 1, 'a', 0x7f, 0x80, 0xc3, 0xff}
		seen := map[string]bool{}
		for i := 0; i < 60; i++ {
			k := make([]byte, r.Intn(4))
			for j := range k {
				k[j] = al[r.Intn(len(al))]
			}
			if !seen[string(k)] {
				seen[string(k)] = true
				ks = append(ks, k)
			}
		}
	case 2: // operator layout: group, schema, length-prefixed subject, namespace
		for g := 0; g < 3; g++ {
			for s := 0; s < 4; s++ {
				for x := 0; x < 4; x++ {
					subj := fmt.Sprintf("s%d", s)
					ks = append(ks, []byte(fmt.Sprintf("%c%c%c%c%c%c%c%s%c%s%d", byte(0), byte(g*100), 0, 0, 0, 0, len(subj), subj, 1, "n", x)))
				}
			}
		}
	default: // few hot keys
		for i := 0; i < 1+r.Intn(6); i++ {
			ks = append(ks, []byte{byte(i * 60)})
		}
	}
	if r.Intn(5) == 0 { // long keys which differ in their last byte, or are prefixes of one another
		for i := 0; i < 1+r.Intn(4); i++ {
			n := LongLen(r)
			for j := 0; j <= r.Intn(3); j++ {
				k := append(bytes.Repeat([]byte{'k'}, n), byte(i), byte(j*100))
				ks = append(ks, k[:len(k)-r.Intn(2)])
			}
		}
		slices.SortFunc(ks, bytes.Compare)
		ks = slices.CompactFunc(ks, bytes.Equal)
	}
	return ks
}

// LongLen draws a length around those where encodings and comparisons change.
func LongLen(r interface{ Intn(int) int }) int {
	return []int{14, 30, 62, 126, 254, 510, 1022, 4094}[r.Intn(8)] + r.Intn(4)
}

// CheckGet compares a point lookup.
func CheckGet(db *dkv.DB, m Ref, k []byte) error {
	want, ok := m[string(k)]
	e, err := db.Get(k)
	if err != nil && !errors.Is(err, kv.ErrNotFound) {
		return fmt.Errorf("Get(%s): unexpected error %v", Short(k), err)
	}
	live := err == nil && !e.IsDelete()
	if ok != live {
		if live {
			return fmt.Errorf("Get(%s) = %s@%d, but the key is deleted or was never written", Short(k), Short(e.Value()), e.SeqNum())
		}
		return fmt.Errorf("Get(%s) reports absent (err=%v), latest write is %s", Short(k), err, Short([]byte(want)))
	}
	if ok && string(e.Value()) != want {
		return fmt.Errorf("Get(%s) = %s@%d, latest write is %s", Short(k), Short(e.Value()), e.SeqNum(), Short([]byte(want)))
	}
	if err == nil && !bytes.Equal(e.Key(), k) {
		return fmt.Errorf("Get(%s) returned the entry of key %s", Short(k), Short(e.Key()))
	}
	return nil
}

// CheckScan compares a prefix scan.
func CheckScan(db *dkv.DB, m Ref, p []byte) (int, error) {
	want := m.Prefix(string(p))
	var serr error
	i := 0
	var prev []byte
	for e := range db.ScanPrefix(p, &serr) {
		if e.IsDelete() {
			return i, fmt.Errorf("ScanPrefix(%s) yields a tombstone for %s", Short(p), Short(e.Key()))
		}
		if prev != nil && bytes.Compare(prev, e.Key()) >= 0 {
			return i, fmt.Errorf("ScanPrefix(%s) yields %s after %s", Short(p), Short(e.Key()), Short(prev))
		}
		prev = append([]byte{}, e.Key()...)
		if i >= len(want) || want[i] != string(e.Key()) {
			w := "(end)"
			if i < len(want) {
				w = Short([]byte(want[i]))
			}
			return i, fmt.Errorf("ScanPrefix(%s) entry %d is %s@%d=%s, want %s", Short(p), i, Short(e.Key()), e.SeqNum(), Short(e.Value()), w)
		}
		if m[want[i]] != string(e.Value()) {
			return i, fmt.Errorf("ScanPrefix(%s): key %s = %s@%d, latest write is %s", Short(p), Short(e.Key()), Short(e.Value()), e.SeqNum(), Short([]byte(m[want[i]])))
		}
		i++
	}
	if serr != nil {
		return i, fmt.Errorf("ScanPrefix(%s): %v", Short(p), serr)
	}
	if i != len(want) {
		return i, fmt.Errorf("ScanPrefix(%s) yields %d of %d live keys, missing %s", Short(p), i, len(want), Short([]byte(want[i])))
	}
	return i, nil
}
