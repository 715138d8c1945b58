// Package kinx is a Kinesis stream double: shards that split and merge, paged listings,
// iterators that expire, small batches and throttling.
package kinx

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"
)

// Stream is one stream; it serves the Kinesis API.
type Stream struct {
	mu       sync.Mutex
	r        *rand.Rand
	page     int
	batch    int
	latency  time.Duration
	throttle int // one in so many reads is
	next     int // number of the next sequence number
	shards   []*Shard
	iters    map[string]*iter
	iterN    int
	expired  int // iterators up to this one are
	tokens   map[string]token

	Calls, Expirations, Throttled int
}

// Shard is a shard; its records are numbered from 0.
type Shard struct {
	ID         string
	Parents    []string
	Closed     bool
	N          int
	start, end *big.Int
	seqs       []int
}

type iter struct {
	s   *Shard
	pos int
	n   int
}

type token struct{ after, upTo string }

// ARN of the stream.
const ARN = "arn:aws:kinesis:region:123456789012:stream/s"

// New makes a stream of n shards.
func New(r *rand.Rand, n int, latency time.Duration) *Stream {
	s := &Stream{r: rand.New(rand.NewSource(r.Int63())), page: 1 + r.Intn(6), batch: 1 + r.Intn(20), latency: latency, iters: map[string]*iter{}, tokens: map[string]token{}, next: 1 + r.Intn(1000)}
	if r.Intn(2) == 0 {
		s.throttle = 10 + r.Intn(40)
	}
	max := new(big.Int).Lsh(big.NewInt(1), 128)
	at := func(i int) *big.Int {
		x := new(big.Int).Mul(max, big.NewInt(int64(i)))
		return x.Div(x, big.NewInt(int64(n)))
	}
	for i := 0; i < n; i++ {
		s.add(at(i), new(big.Int).Sub(at(i+1), big.NewInt(1)))
	}
	return s
}

func (s *Stream) add(start, end *big.Int, parents ...string) *Shard {
	sh := &Shard{ID: fmt.Sprintf("shardId-%012d", len(s.shards)), Parents: parents, start: start, end: end}
	s.shards = append(s.shards, sh)
	return sh
}

// Get is a copy of a shard.
func (s *Stream) Get(id string) (Shard, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if sh := s.find(id); sh != nil {
		return *sh, true
	}
	return Shard{}, false
}

// All are copies of all shards.
func (s *Stream) All() (out []Shard) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, sh := range s.shards {
		out = append(out, *sh)
	}
	return
}

func (s *Stream) find(id string) *Shard {
	for _, sh := range s.shards {
		if sh.ID == id {
			return sh
		}
	}
	return nil
}

func (s *Stream) open() (out []*Shard) {
	for _, sh := range s.shards {
		if !sh.Closed {
			out = append(out, sh)
		}
	}
	return
}

// Put adds n records to an open shard.
func (s *Stream) Put(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := s.open()
	sh := o[s.r.Intn(len(o))]
	for ; n > 0; n-- {
		s.next += 1 + s.r.Intn(100)
		sh.seqs = append(sh.seqs, s.next)
		sh.N++
	}
}

// Split splits an open shard.
func (s *Stream) Split() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := s.open()
	sh := o[s.r.Intn(len(o))]
	d := new(big.Int).Sub(sh.end, sh.start)
	if d.BitLen() < 10 {
		return false
	}
	// anywhere inside
	mid := new(big.Int).Div(new(big.Int).Mul(d, big.NewInt(int64(1+s.r.Intn(98)))), big.NewInt(100))
	mid.Add(mid, sh.start)
	sh.Closed = true
	s.add(sh.start, mid, sh.ID)
	s.add(new(big.Int).Add(mid, big.NewInt(1)), sh.end, sh.ID)
	return true
}

// Merge merges two adjacent open shards.
func (s *Stream) Merge() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := s.open()
	for _, i := range s.r.Perm(len(o)) {
		for _, k := range o {
			if new(big.Int).Add(o[i].end, big.NewInt(1)).Cmp(k.start) == 0 {
				o[i].Closed, k.Closed = true, true
				p := []string{o[i].ID, k.ID}
				if s.r.Intn(2) == 0 {
					p[0], p[1] = p[1], p[0]
				}
				s.add(o[i].start, k.end, p...)
				return true
			}
		}
	}
	return false
}

// Expire makes all iterators given out so far invalid.
func (s *Stream) Expire() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.expired = s.iterN
}

type apiError struct{ code, msg string }

// ServeHTTP serves the API.
func (s *Stream) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	_, op, _ := strings.Cut(req.Header.Get("X-Amz-Target"), ".")
	body, _ := io.ReadAll(req.Body)
	if s.latency > 0 {
		s.mu.Lock()
		d := time.Duration(s.r.Int63n(int64(s.latency)))
		s.mu.Unlock()
		time.Sleep(d)
	}
	s.mu.Lock()
	var out any
	var err *apiError
	s.Calls++
	switch op {
	case "ListShards":
		out, err = s.list(body)
	case "GetShardIterator":
		out, err = s.iterator(body)
	case "GetRecords":
		out, err = s.records(body)
	default:
		err = &apiError{"InvalidArgumentException", "unknown operation " + op}
	}
	s.mu.Unlock()
	if s.latency > 0 { // the answer's way back
		s.mu.Lock()
		d := time.Duration(s.r.Int63n(int64(s.latency)))
		s.mu.Unlock()
		time.Sleep(d)
	}
	w.Header().Set("Content-Type", "application/x-amz-json-1.1")
	if err != nil {
		w.Header().Set("X-Amzn-Errortype", err.code)
		w.WriteHeader(400)
		out = map[string]string{"__type": err.code, "message": err.msg}
	}
	json.NewEncoder(w).Encode(out)
}

func (s *Stream) list(body []byte) (any, *apiError) {
	var in struct{ ExclusiveStartShardId, NextToken, StreamARN string }
	json.Unmarshal(body, &in)
	after := in.ExclusiveStartShardId
	if in.NextToken != "" {
		if after != "" || s.tokens[in.NextToken] == (token{}) {
			return nil, &apiError{"InvalidArgumentException", "bad token"}
		}
		after = s.tokens[in.NextToken].after
	} else if in.StreamARN != ARN {
		return nil, &apiError{"ResourceNotFoundException", "no such stream"}
	}
	type shard struct {
		ShardId               string
		ParentShardId         string `json:",omitempty"`
		AdjacentParentShardId string `json:",omitempty"`
		HashKeyRange          map[string]string
		SequenceNumberRange   map[string]string
	}
	out := struct {
		Shards    []shard
		NextToken string `json:",omitempty"`
	}{Shards: []shard{}}
	for _, sh := range s.shards {
		if sh.ID <= after {
			continue
		}
		if len(out.Shards) == s.page {
			t := fmt.Sprint("token-", len(s.tokens))
			s.tokens[t] = token{after: out.Shards[len(out.Shards)-1].ShardId}
			out.NextToken = t
			break
		}
		x := shard{ShardId: sh.ID, HashKeyRange: map[string]string{"StartingHashKey": sh.start.String(), "EndingHashKey": sh.end.String()}, SequenceNumberRange: map[string]string{"StartingSequenceNumber": "0"}}
		if len(sh.Parents) > 0 {
			x.ParentShardId = sh.Parents[0]
		}
		if len(sh.Parents) > 1 {
			x.AdjacentParentShardId = sh.Parents[1]
		}
		out.Shards = append(out.Shards, x)
	}
	return out, nil
}

func (s *Stream) mint(sh *Shard, pos int) string {
	s.iterN++
	id := fmt.Sprint("iterator-", s.iterN)
	s.iters[id] = &iter{s: sh, pos: pos, n: s.iterN}
	return id
}

func (s *Stream) iterator(body []byte) (any, *apiError) {
	var in struct{ ShardId, ShardIteratorType, StartingSequenceNumber, StreamARN string }
	json.Unmarshal(body, &in)
	sh := s.find(in.ShardId)
	if sh == nil || in.StreamARN != ARN {
		return nil, &apiError{"ResourceNotFoundException", "no such shard " + in.ShardId}
	}
	pos := 0
	switch in.ShardIteratorType {
	case "TRIM_HORIZON":
	case "LATEST":
		pos = sh.N
	case "AFTER_SEQUENCE_NUMBER", "AT_SEQUENCE_NUMBER":
		pos = -1
		for i, q := range sh.seqs {
			if number(q) == in.StartingSequenceNumber {
				pos = i
				if in.ShardIteratorType == "AFTER_SEQUENCE_NUMBER" {
					pos++
				}
			}
		}
		if pos < 0 {
			return nil, &apiError{"InvalidArgumentException", "no such sequence number"}
		}
	default:
		return nil, &apiError{"InvalidArgumentException", "bad type"}
	}
	return map[string]string{"ShardIterator": s.mint(sh, pos)}, nil
}

func (s *Stream) records(body []byte) (any, *apiError) {
	var in struct {
		ShardIterator, StreamARN string
		Limit                    int
	}
	json.Unmarshal(body, &in)
	it := s.iters[in.ShardIterator]
	if it == nil {
		return nil, &apiError{"InvalidArgumentException", "bad iterator"}
	}
	if s.throttle > 0 && s.r.Intn(s.throttle) == 0 {
		s.Throttled++
		return nil, &apiError{"ProvisionedThroughputExceededException", "slow down"}
	}
	if it.n <= s.expired {
		s.Expirations++
		return nil, &apiError{"ExpiredIteratorException", "expired"}
	}
	type record struct {
		Data                        []byte
		PartitionKey                string
		SequenceNumber              string
		ApproximateArrivalTimestamp float64
	}
	out := struct {
		Records            []record
		NextShardIterator  string `json:",omitempty"`
		MillisBehindLatest int
	}{Records: []record{}}
	n := s.r.Intn(s.batch + 1)
	if in.Limit > 0 {
		n = min(n, in.Limit)
	}
	pos := it.pos
	for ; pos < it.s.N && n > 0; pos, n = pos+1, n-1 {
		out.Records = append(out.Records, record{Data: fmt.Appendf(nil, "%s %d", it.s.ID, pos), PartitionKey: "k", SequenceNumber: number(it.s.seqs[pos]), ApproximateArrivalTimestamp: float64(it.s.seqs[pos])})
	}
	// The end of a closed shard is told with its last records, or later.
	if it.s.Closed && pos == it.s.N && s.r.Intn(2) == 0 {
		return out, nil
	}
	out.NextShardIterator = s.mint(it.s, pos)
	return out, nil
}

// number is a sequence number as long as the service's.
func number(n int) string { return fmt.Sprintf("49590338271490256608559692538361571%021d", n) }
