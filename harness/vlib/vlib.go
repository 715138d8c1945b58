// Package vlib runs a property's monitored workloads: a fixed, seed-determined list of
// cases, each executed in a child process so that panics, fatal errors and hangs of the
// code under test are observed and attributed to the case that caused them.
package vlib

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"log/slog"
	"maps"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Suite is a family of cases of one property.
type Suite struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Run      func(c *Case)
	Watchdog time.Duration // wall-clock watchdog; firing alone is never a violation
}

// Prop describes a property's check.
type Prop struct {
	ID       string
	Level    string
	Rule     string
	Suites   []Suite
	Require  []string // counters that must be > 0 for the run to count as having observed anything
	Assume   []string
	Parallel int
	// HangIsViolation: a reproducible state in which every goroutine is blocked violates the property
	// (bounded progress). Otherwise a hang is inconclusive.
	HangIsViolation bool
	// Recycle starts a new process after so many cases, because of what the code under test never
	// releases.
	Recycle int
}

// Case is one execution.
type Case struct {
	Prop, Suite string
	Index       int
	Seed        int64
	Tier        string
	R           *rand.Rand
	Verbose     bool

	mu       sync.Mutex
	counters map[string]int64
	distinct map[string]map[uint64]struct{}
	sigs     []string
	nontriv  bool
	samples  []string
	fails    []Failure
	trace    []string
}

// Failure is a violation witnessed by a case.
type Failure struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

type abort struct{}

// Count adds to an evidence counter.
func (c *Case) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

// Distinct records a member of a set whose union size over all cases is evidence.
func (c *Case) Distinct(set string, vals ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, vals...)
	c.mu.Lock()
	if c.distinct[set] == nil {
		c.distinct[set] = map[uint64]struct{}{}
	}
	c.distinct[set][h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// NonTrivial marks the case as non-trivial, identified by sig.
func (c *Case) NonTrivial(sig ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, sig...)
	c.mu.Lock()
	c.nontriv = true
	if len(c.sigs) == 0 { // one per case: distinct_nontrivial counts cases
		c.sigs = append(c.sigs, strconv.FormatUint(h.Sum64(), 36))
	}
	c.mu.Unlock()
}

// Sample keeps a description of the case for the evidence file.
func (c *Case) Sample(format string, args ...any) {
	c.mu.Lock()
	if len(c.samples) < 1 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Trace adds a line to the case's history, shown in the replay file.
func (c *Case) Trace(format string, args ...any) {
	c.mu.Lock()
	if len(c.trace) < 20000 {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
		if c.Verbose {
			fmt.Fprintln(os.Stderr, c.trace[len(c.trace)-1])
		}
	}
	c.mu.Unlock()
}

// Report records a violation without stopping the case. Safe from any goroutine.
func (c *Case) Report(sig, format string, args ...any) {
	c.mu.Lock()
	if len(c.fails) < 20 {
		c.fails = append(c.fails, Failure{sig, fmt.Sprintf(format, args...)})
	}
	c.mu.Unlock()
}

// Fail records a violation and stops the case (call from the case's goroutine).
func (c *Case) Fail(sig, format string, args ...any) {
	c.Report(sig, format, args...)
	panic(abort{})
}

// Failed reports whether a violation has been recorded.
func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

// StopIfFailed ends the case if a violation has been recorded by another goroutine.
func (c *Case) StopIfFailed() {
	if c.Failed() {
		panic(abort{})
	}
}

type result struct {
	Counters map[string]int64    `json:"counters,omitempty"`
	Distinct map[string][]uint64 `json:"distinct,omitempty"`
	Sigs     []string            `json:"sigs,omitempty"`
	NonTriv  bool                `json:"nontriv,omitempty"`
	Samples  []string            `json:"samples,omitempty"`
	Fails    []Failure           `json:"fails,omitempty"`
	Trace    []string            `json:"trace,omitempty"`
}

func newCase(p *Prop, s *Suite, idx int, seed int64, tier string) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", p.ID, s.Name, idx, seed)
	cs := int64(h.Sum64() >> 1)
	return &Case{
		Prop: p.ID, Suite: s.Name, Index: idx, Seed: cs, Tier: tier,
		R:        rand.New(rand.NewSource(cs)),
		counters: map[string]int64{},
		distinct: map[string]map[uint64]struct{}{},
	}
}

func runCase(s *Suite, c *Case) (r result) {
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				c.Report("panic", "panic in the code under test: %v\n%s", e, debug.Stack())
			}
		}()
		s.Run(c)
	}()
	c.mu.Lock()
	defer c.mu.Unlock()
	r.Counters = maps.Clone(c.counters) // goroutines of the case may still be counting
	r.Distinct = map[string][]uint64{}
	for k, m := range c.distinct {
		for v := range m {
			r.Distinct[k] = append(r.Distinct[k], v)
		}
	}
	r.Sigs, r.NonTriv, r.Samples, r.Fails = c.sigs, c.nontriv, c.samples, c.fails
	if len(c.fails) > 0 {
		r.Trace = c.trace
	}
	return r
}

type job struct {
	suite *Suite
	idx   int
	tries int
}

type known struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

// Main runs the property's check (parent) or serves cases (child).
func Main(p Prop) {
	log.SetOutput(io.Discard)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		child(&p, seed, tier)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "-replay" {
		replay(&p, os.Args[2])
		return
	}
	only := ""
	if len(os.Args) > 2 && os.Args[1] == "-suite" {
		only = os.Args[2]
	}
	parent(&p, seed, tier, only)
}

func child(p *Prop, seed int64, tier string) {
	debug.SetTraceback("all")
	out := os.NewFile(3, "results")
	w := bufio.NewWriter(out)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var name string
		var idx int
		fmt.Sscanf(sc.Text(), "%s %d", &name, &idx)
		for i := range p.Suites {
			if p.Suites[i].Name == name {
				c := newCase(p, &p.Suites[i], idx, seed, tier)
				r := runCase(&p.Suites[i], c)
				b, err := json.Marshal(r)
				if err != nil {
					panic(err)
				}
				w.Write(b)
				w.WriteByte('\n')
				w.Flush()
			}
		}
	}
}

type replayFile struct {
	Property string    `json:"property"`
	Suite    string    `json:"suite"`
	Index    int       `json:"index"`
	Seed     int64     `json:"seed"`
	Tier     string    `json:"tier"`
	Fails    []Failure `json:"failures"`
	Trace    []string  `json:"trace"`
	Stderr   string    `json:"stderr,omitempty"`
	How      string    `json:"how_to_replay"`
}

func replay(p *Prop, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for i := range p.Suites {
		if p.Suites[i].Name == rf.Suite {
			c := newCase(p, &p.Suites[i], rf.Index, rf.Seed, rf.Tier)
			c.Verbose = true
			if f, err := os.Create(os.Getenv("VERIF_CPUPROFILE")); err == nil {
				pprof.StartCPUProfile(f)
				defer pprof.StopCPUProfile()
			}
			r := runCase(&p.Suites[i], c)
			for _, f := range r.Fails {
				fmt.Printf("FAIL [%s] %s\n", f.Sig, f.Msg)
			}
			if len(r.Fails) > 0 {
				os.Exit(1)
			}
			fmt.Println("replay: no violation")
			return
		}
	}
	fmt.Fprintln(os.Stderr, "unknown suite", rf.Suite)
	os.Exit(2)
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		// keep head of the last crash: drop the oldest half
		t.b = append([]byte(nil), t.b[len(t.b)-(1<<19):]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }
func (t *tailBuf) Reset()         { t.mu.Lock(); t.b = nil; t.mu.Unlock() }

type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	err   *tailBuf
	outfd *os.File
	cases int
}

func startProc(maxprocs int) (*proc, error) {
	cmd := exec.Command(os.Args[0], "-child")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", fmt.Sprintf("GOMAXPROCS=%d", maxprocs))
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(pr, 1<<20), err: tb, outfd: pr}, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.outfd.Close()
}

var goState = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]+)`)

// allBlocked: every goroutine of the dump is waiting on a channel, lock, select or semaphore.
func allBlocked(dump string) bool {
	ms := goState.FindAllStringSubmatch(dump, -1)
	if len(ms) == 0 {
		return false
	}
	for _, m := range ms {
		switch {
		case strings.HasPrefix(m[1], "running"), strings.HasPrefix(m[1], "runnable"), m[1] == "sleep":
			// the goroutine that prints the dump is "idle"/not listed on SIGQUIT
			return false
		}
	}
	return true
}

func parent(p *Prop, seed int64, tier, only string) {
	start := time.Now()
	verif := os.Getenv("VERIF")
	if verif == "" {
		verif = "/verif"
	}
	var knowns []known
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		var kf struct {
			Findings []known `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
		for _, k := range kf.Findings {
			if k.Property == p.ID {
				knowns = append(knowns, k)
			}
		}
	}
	var jobs []job
	// interleave suites so that an early stop still samples all of them
	maxn := 0
	for i := range p.Suites {
		n := p.Suites[i].Quick
		if tier == "thorough" {
			n = p.Suites[i].Thorough
		}
		maxn = max(maxn, n)
	}
	for k := 0; k < maxn; k++ {
		for i := range p.Suites {
			if only != "" && p.Suites[i].Name != only {
				continue
			}
			n := p.Suites[i].Quick
			if tier == "thorough" {
				n = p.Suites[i].Thorough
			}
			if k < n {
				jobs = append(jobs, job{suite: &p.Suites[i], idx: k})
			}
		}
	}
	par := p.Parallel
	if par == 0 {
		par = runtime.NumCPU()
	}
	if par > len(jobs) {
		par = len(jobs)
	}

	var mu sync.Mutex
	next := 0
	evals := 0
	perSuite := map[string]int{}
	counters := map[string]int64{}
	distinct := map[string]map[uint64]struct{}{}
	sigs := map[string]struct{}{}
	nontrivNoSig := 0
	var samples []any
	sampleSuites := map[string]int{}
	var viol []replayFile
	knownHit := map[string]bool{}
	inconclusive := []string{}
	stop := false
	isKnown := func(f Failure) bool {
		for _, k := range knowns {
			if k.Signature == f.Sig {
				knownHit[f.Sig] = true
				return true
			}
		}
		return false
	}
	addViol := func(j job, fails []Failure, trace []string, stderr string) {
		var un []Failure
		for _, f := range fails {
			if !isKnown(f) {
				un = append(un, f)
			}
		}
		if len(un) == 0 {
			return
		}
		viol = append(viol, replayFile{p.ID, j.suite.Name, j.idx, seed, tier, un, trace, stderr, ""})
		if len(viol) >= 3 {
			stop = true
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			mps := []int{1, 2, 4, 8}
			var pr *proc
			defer func() {
				if pr != nil {
					pr.in.Close()
					pr.kill()
				}
			}()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				var hangs []string
				for attempt := 0; ; attempt++ {
					if pr == nil {
						var err error
						pr, err = startProc(mps[w%len(mps)])
						if err != nil {
							mu.Lock()
							inconclusive = append(inconclusive, err.Error())
							stop = true
							mu.Unlock()
							return
						}
					}
					pr.err.Reset()
					fmt.Fprintf(pr.in, "%s %d\n", j.suite.Name, j.idx)
					type lr struct {
						b   []byte
						err error
					}
					ch := make(chan lr, 1)
					go func(o *bufio.Reader) {
						b, err := o.ReadBytes('\n')
						ch <- lr{b, err}
					}(pr.out)
					wd := j.suite.Watchdog
					if wd == 0 {
						wd = 90 * time.Second
					}
					var l lr
					hung := false
					select {
					case l = <-ch:
					case <-time.After(wd):
						hung = true
						pr.cmd.Process.Signal(syscall.SIGQUIT)
						select {
						case <-ch:
						case <-time.After(20 * time.Second):
						}
					}
					if hung {
						pr.kill()
						dump := pr.err.String()
						pr = nil
						hangs = append(hangs, dump)
						if len(hangs) < 2 {
							continue
						}
						blocked := true
						for _, d := range hangs {
							if !allBlocked(d) {
								blocked = false
							}
						}
						mu.Lock()
						if p.HangIsViolation && blocked {
							addViol(j, []Failure{{"hang", "no progress: every goroutine of the run is blocked, twice in two runs of this case"}}, nil, tail(dump, 60000))
						} else {
							inconclusive = append(inconclusive, fmt.Sprintf("%s/%d: watchdog fired twice (blocked=%v)", j.suite.Name, j.idx, blocked))
							os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
							os.WriteFile(filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-hang-%s-%d.txt", p.ID, j.suite.Name, j.idx)), []byte(dump), 0o644)
							if len(inconclusive) > 3 {
								stop = true
							}
						}
						mu.Unlock()
						break
					}
					if l.err != nil {
						// the child died: panic in a background goroutine, fatal error, race report
						pr.cmd.Wait()
						code := pr.cmd.ProcessState
						errs := pr.err.String()
						pr.kill()
						pr = nil
						if strings.Contains(code.String(), "signal: killed") {
							mu.Lock()
							inconclusive = append(inconclusive, fmt.Sprintf("%s/%d: child killed (memory?)", j.suite.Name, j.idx))
							if len(inconclusive) > 3 {
								stop = true
							}
							mu.Unlock()
							break
						}
						mu.Lock()
						evals++
						perSuite[j.suite.Name]++
						sig := "crash"
						if strings.Contains(errs, "WARNING: DATA RACE") {
							sig = "data-race"
						}
						addViol(j, []Failure{{sig, "the process running the case died (" + code.String() + "): " + firstLines(errs, 40)}}, nil, tail(errs, 60000))
						mu.Unlock()
						break
					}
					var r result
					if err := json.Unmarshal(l.b, &r); err != nil {
						mu.Lock()
						inconclusive = append(inconclusive, fmt.Sprintf("%s/%d: bad result: %v", j.suite.Name, j.idx, err))
						mu.Unlock()
						break
					}
					mu.Lock()
					evals++
					perSuite[j.suite.Name]++
					for k, v := range r.Counters {
						counters[k] += v
					}
					for k, vs := range r.Distinct {
						if distinct[k] == nil {
							distinct[k] = map[uint64]struct{}{}
						}
						for _, v := range vs {
							distinct[k][v] = struct{}{}
						}
					}
					for _, s := range r.Sigs {
						sigs[j.suite.Name+"/"+s] = struct{}{}
					}
					if r.NonTriv && len(r.Sigs) == 0 {
						nontrivNoSig++
					}
					if sampleSuites[j.suite.Name] < 2 && len(r.Samples) > 0 {
						sampleSuites[j.suite.Name]++
						samples = append(samples, map[string]any{"suite": j.suite.Name, "index": j.idx, "case": r.Samples[0]})
					}
					if len(r.Fails) > 0 {
						addViol(j, r.Fails, r.Trace, "")
						// state left by a failed case must not leak into the next one
						mu.Unlock()
						pr.in.Close()
						pr.kill()
						pr = nil
						mu.Lock()
					}
					mu.Unlock()
					if pr != nil {
						if pr.cases++; p.Recycle > 0 && pr.cases >= p.Recycle || rss(pr.cmd.Process.Pid) > 900<<20 {
							pr.in.Close()
							pr.kill()
							pr = nil
						}
					}
					break
				}
			}
		}(w)
	}
	wg.Wait()

	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(sigs) + nontrivNoSig,
		"rule":                p.Rule,
		"samples":             samples,
		"cases_per_suite":     perSuite,
		"observed":            counters,
	}
	if len(distinct) > 0 {
		d := map[string]int{}
		for k, m := range distinct {
			d[k] = len(m)
		}
		cov["distinct_observed"] = d
	}
	if len(inconclusive) > 0 {
		cov["inconclusive"] = inconclusive
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	keys := make([]string, 0, len(counters))
	for k := range counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, tier, seed, evals, len(sigs)+nontrivNoSig, time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  observed %s=%d\n", k, counters[k])
	}
	for _, k := range knowns {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
	}
	if len(viol) > 0 {
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for _, v := range viol {
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, v.Suite, v.Index))
			v.How = fmt.Sprintf("/verif/bin/vrun %s -replay %s", p.ID, path)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			for _, f := range v.Fails {
				fmt.Printf("# %s/%d [%s] %s\n", v.Suite, v.Index, f.Sig, firstLines(f.Msg, 12))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		os.Exit(1)
	}
	for _, q := range p.Require {
		if only == "" && counters[q] == 0 {
			inconclusive = append(inconclusive, "monitor observed no "+q)
		}
	}
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Println("INCONCLUSIVE:", s)
		}
		os.Exit(2)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func firstLines(s string, n int) string {
	ls := bytes.SplitN([]byte(s), []byte("\n"), n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	r := string(bytes.Join(ls, []byte("\n")))
	if len(r) > 6000 {
		r = r[:6000]
	}
	return r
}

// rss is the memory that one of the checks' own child processes holds.
func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var total, resident int64
	fmt.Sscan(string(b), &total, &resident)
	return resident * int64(os.Getpagesize())
}
