package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction-protocol/kinesispb"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/connectors/embedded"
	"reduction.dev/reduction/connectors/httpapi"
	"reduction.dev/reduction/connectors/kinesis"
	kpb "reduction.dev/reduction/connectors/kinesis/kinesispb"
	"reduction.dev/reduction/proto/snapshotpb"
	"verif/harness/kinx"
	"verif/harness/vlib"
)

// origin is what a connector reads: splits whose records are numbered from 0.
type origin interface {
	config() connectors.SourceConfig
	decode(raw []byte) (split string, i int)
	// splits that exist, with what has to be read of them; endless ones are never over
	splits() []split
	step(r *rand.Rand) string
	close()
	describe(*snapshotpb.JobCheckpoint) string // what the connector put into a checkpoint, for traces
}

type split struct {
	id      string
	n       int
	closed  bool
	endless bool
	parents []string
}

// ---- kinesis

type kin struct {
	c        *vlib.Case
	s        *kinx.Stream
	srv      *httptest.Server
	interval time.Duration
}

func init() {
	for k, v := range map[string]string{"AWS_REGION": "region", "AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_ACCESS_KEY": "b", "AWS_MAX_ATTEMPTS": "1", "AWS_CONFIG_FILE": "/dev/null", "AWS_SHARED_CREDENTIALS_FILE": "/dev/null", "AWS_EC2_METADATA_DISABLED": "true"} {
		os.Setenv(k, v)
	}
	os.Unsetenv("AWS_CA_BUNDLE") // takes long to read
}

func newKinesis(c *vlib.Case) *kin {
	r := c.R
	s := kinx.New(r, 1+r.Intn(6), time.Duration(100+r.Intn(400))*time.Microsecond)
	for i := r.Intn(6); i > 0; i-- {
		s.Put(1 + r.Intn(30))
	}
	return &kin{c: c, s: s, srv: httptest.NewServer(s), interval: time.Duration(1000+r.Intn(10000)) * time.Microsecond}
}

func (k *kin) config() connectors.SourceConfig {
	return kinesis.SourceConfig{StreamARN: kinx.ARN, Endpoint: k.srv.URL, ShardDiscoveryInterval: k.interval}
}

func (k *kin) decode(raw []byte) (string, int) {
	var p kinesispb.Record
	if err := proto.Unmarshal(raw, &p); err != nil {
		return "", 0
	}
	a, b, _ := strings.Cut(string(p.Data), " ")
	i, _ := strconv.Atoi(b)
	return a, i
}

func (k *kin) splits() (out []split) {
	for _, s := range k.s.All() {
		out = append(out, split{id: s.ID, n: s.N, closed: s.Closed, parents: s.Parents})
	}
	return
}

func (k *kin) step(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		if k.s.Split() {
			k.c.Count("shards_split", 1)
			return "a shard is split"
		}
	case 1:
		if k.s.Merge() {
			k.c.Count("shards_merged", 1)
			return "shards are merged"
		}
	case 2:
		k.s.Expire()
		return "iterators expire"
	}
	n := 1 + r.Intn(40)
	k.s.Put(n)
	return fmt.Sprint(n, " records")
}

func (k *kin) describe(j *snapshotpb.JobCheckpoint) (out string) {
	for _, x := range j.SourceCheckpoints {
		for _, b := range x.SplitStates {
			var s kpb.Shard
			proto.Unmarshal(b, &s)
			out += fmt.Sprintf(" %s@%s", s.ShardId, s.Cursor)
		}
		var s kpb.SplitterState
		proto.Unmarshal(x.SplitterState, &s)
		out += fmt.Sprintf(" finished %v splitter %s", x.FinishedSplitIds, s.String())
	}
	return
}

func (k *kin) close() {
	k.c.Count("iterators_expired", k.s.Expirations)
	k.c.Count("reads_throttled", k.s.Throttled)
	k.srv.CloseClientConnections()
	k.srv.Close()
}

// ---- embedded

type emb struct{ n, batch int }

func newEmbedded(c *vlib.Case) *emb { return &emb{n: 1 + c.R.Intn(9), batch: 1 + c.R.Intn(20)} }

func (e *emb) config() connectors.SourceConfig {
	// As read from a job's configuration
	p := embedded.SourceConfig{SplitCount: e.n, BatchSize: e.batch}.ProtoMessage()
	return embedded.SourceConfigFromProto(p.Config.(*jobconfigpb.Source_Embedded).Embedded)
}

func (e *emb) decode(raw []byte) (string, int) {
	i, err := strconv.Atoi(string(raw))
	if err != nil || i < 0 {
		return "", 0
	}
	return strconv.Itoa(i % e.n), i / e.n
}

func (e *emb) splits() (out []split) {
	for i := 0; i < e.n; i++ {
		out = append(out, split{id: strconv.Itoa(i), endless: true})
	}
	return
}
func (e *emb) describe(*snapshotpb.JobCheckpoint) string { return "" }
func (e *emb) step(*rand.Rand) string                    { return "" }
func (e *emb) close()                                    {}

// ---- httpapi

type web struct {
	mu    sync.Mutex
	r     *rand.Rand
	batch int
	n     int // number of records until the end of input, or 0
	base  int // the service's cursors start behind it, except the first
	srv   *httptest.Server
}

func newWeb(c *vlib.Case) *web {
	w := &web{batch: 1 + c.R.Intn(20), r: rand.New(rand.NewSource(c.R.Int63()))}
	if c.R.Intn(2) == 0 {
		w.n = 1 + c.R.Intn(3000)
	}
	w.base = []int{0, 0, 250, 65500, 1<<31 - 300, 1<<32 - 300, 1 << 52}[c.R.Intn(7)]
	w.srv = httptest.NewServer(w)
	return w
}

func (w *web) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	cursor, err := strconv.Atoi(strings.TrimPrefix(req.URL.Path, "/topics/t/"))
	if err != nil || cursor < 0 {
		rw.WriteHeader(404)
		return
	}
	if cursor > 0 {
		cursor -= w.base
	}
	if cursor < 0 {
		rw.WriteHeader(404)
		return
	}
	w.mu.Lock()
	n, d := 1+w.r.Intn(w.batch), time.Duration(w.r.Intn(500))*time.Microsecond
	if w.r.Intn(200) == 0 {
		n = 0
	}
	w.mu.Unlock()
	time.Sleep(d)
	if w.n > 0 {
		n = min(n, max(w.n-cursor, 0))
	}
	out := httpapi.HTTPSourceEvent{Cursor: cursor + n}
	if out.Cursor > 0 {
		out.Cursor += w.base
	}
	for i := 0; i < n; i++ {
		out.Events = append(out.Events, []byte(strconv.Itoa(cursor+i)))
	}
	// The end comes with the last records or after them
	if w.n > 0 && cursor+n >= w.n && (n == 0 || w.n%2 == 0) {
		out.Status = "eoi"
	}
	json.NewEncoder(rw).Encode(out)
}

func (w *web) config() connectors.SourceConfig {
	return httpapi.SourceConfig{Addr: w.srv.URL, Topics: []string{"t"}}
}

func (w *web) decode(raw []byte) (string, int) {
	i, err := strconv.Atoi(string(raw))
	if err != nil {
		return "", 0
	}
	return "only", i
}
func (w *web) splits() []split {
	return []split{{id: "only", n: w.n, closed: w.n > 0, endless: w.n == 0}}
}
func (w *web) describe(*snapshotpb.JobCheckpoint) string { return "" }
func (w *web) step(*rand.Rand) string                    { return "" }
func (w *web) close() {
	w.srv.CloseClientConnections()
	w.srv.Close()
}
