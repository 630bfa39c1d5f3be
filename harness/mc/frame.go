// The exploration driver. Every check is a deterministic enumeration of cases
// (operation sequences, inputs, environment answers, schedules), grouped in
// sections. Each case runs the real code and compares it with the reference
// model. Cases are dealt out to shards by index; a case is identified by
// "section#index" and can be replayed alone.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"verifharness/ref"
)

type Violation struct {
	Section string `json:"section"`
	Index   int64  `json:"index"`
	Msg     string `json:"msg"`
	Key     string `json:"key,omitempty"` // stable name of the failing behaviour, for known findings
}

type SecStat struct {
	Name     string `json:"name"`
	Cases    int64  `json:"cases"`  // cases of this shard
	Total    int64  `json:"total"`  // cases enumerated over all shards
	Capped   bool   `json:"capped"` // the deadline cut the section short
	Skipped  string `json:"skipped,omitempty"`
	Bound    string `json:"bound,omitempty"`
	Distinct int64  `json:"distinct_outcomes"`
}

type Result struct {
	Sections   []*SecStat  `json:"sections"`
	Trans      int64       `json:"transitions"`
	Traces     int64       `json:"traces"`
	Samples    []string    `json:"samples"`
	Violations []Violation `json:"violations"`
	Notes      []string    `json:"notes"`
	Wall       float64     `json:"wall"`
}

type Ctx struct {
	Prop, Tier     string
	Thorough       bool
	shard, nshards int64
	onlySec        string
	onlyIdx        int64 // -1: no restriction
	prefix         bool
	deadline       time.Time
	states         map[uint64]struct{}
	res            Result
	outcomes       map[uint64]struct{}
}

type Sec struct {
	c    *Ctx
	st   *SecStat
	idx  int64
	done bool
}

// T is one case.
type T struct {
	c      *Ctx
	s      *Sec
	failed bool
	sample func() string
	desc   []string
}

const maxViolations = 5

var hashSeed = fixedSeed()

// state hashes must agree between shards: use FNV-like mixing of our own
func fixedSeed() uint64 { return 0x9e3779b97f4a7c15 }

func mix(h uint64, b []byte) uint64 {
	h ^= uint64(len(b)) * 0xff51afd7ed558ccd
	for len(b) >= 8 {
		h = (h ^ binary.LittleEndian.Uint64(b)) * 0x9fb21c651e98df25
		h ^= h >> 29
		b = b[8:]
	}
	for _, v := range b {
		h = (h ^ uint64(v)) * 0x100000001b3
	}
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	return h
}

func (c *Ctx) Section(name, bound string, f func(s *Sec)) {
	if c.onlyIdx >= 0 && !c.prefix && name != c.onlySec {
		return
	}
	if c.stop() {
		return
	}
	st := &SecStat{Name: name, Bound: bound}
	c.res.Sections = append(c.res.Sections, st)
	c.outcomes = map[uint64]struct{}{}
	s := &Sec{c: c, st: st, idx: -1}
	f(s)
	st.Total = s.idx + 1
	st.Distinct = int64(len(c.outcomes))
	if c.onlyIdx >= 0 && name == c.onlySec {
		c.deadline = time.Time{} // prefix replay ends here
	}
}

// Skip notes that a section could not run (a hook is missing).
func (c *Ctx) Skip(name, why string) {
	if c.onlyIdx < 0 {
		c.res.Sections = append(c.res.Sections, &SecStat{Name: name, Skipped: why})
	}
}

func (c *Ctx) Note(format string, a ...interface{}) {
	c.res.Notes = append(c.res.Notes, fmt.Sprintf(format, a...))
}

func (c *Ctx) stop() bool {
	return len(c.res.Violations) >= maxViolations || time.Now().After(c.deadline)
}

var heartbeat int64 // start of the running case, unix nanoseconds; 0 when idle

// More reports whether the section should go on (deadline, violations).
func (s *Sec) More() bool { return !s.done }

// Skip passes over n cases without running them.
func (s *Sec) Case(f func(t *T)) {
	s.idx++
	c := s.c
	if s.done {
		return
	}
	if c.onlyIdx >= 0 {
		if c.prefix {
			if s.st.Name == c.onlySec && s.idx > c.onlyIdx {
				s.done = true
				return
			}
			if s.idx%c.nshards != c.shard {
				return
			}
		} else if s.idx != c.onlyIdx {
			return
		}
	} else {
		if s.idx%c.nshards != c.shard {
			return
		}
		if s.st.Cases&15 == 0 && c.stop() {
			if len(c.res.Violations) < maxViolations {
				s.st.Capped = true
			}
			s.done = true
			return
		}
	}
	s.st.Cases++
	c.res.Traces++
	t := &T{c: c, s: s}
	if s.st.Cases&63 == 1 || c.onlyIdx >= 0 {
		atomic.StoreInt64(&heartbeat, time.Now().UnixNano())
	}
	currentIdx, currentSec = s.idx, s.st.Name
	if traceFile != nil {
		traceFile.Truncate(0)
		traceFile.WriteAt([]byte(fmt.Sprintf("%s#%d\n", currentSec, currentIdx)), 0)
	}
	t.run(f)
	if s.st.Cases <= 1 && t.sample != nil && c.shard == 0 {
		c.res.Samples = append(c.res.Samples, s.st.Name+": "+t.sample())
	}
}

var (
	traceFile  *os.File
	currentIdx int64
	currentSec string
)

func (t *T) run(f func(t *T)) {
	defer func() {
		if e := recover(); e != nil {
			t.Failf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f(t)
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	var r []string
	for _, x := range l {
		if strings.Contains(x, "go-xpx-crypto.") || strings.HasPrefix(strings.TrimSpace(x), repoDir) || strings.Contains(x, "zz_verif") {
			r = append(r, strings.TrimSpace(x))
		}
		if len(r) >= 8 {
			break
		}
	}
	return strings.Join(r, "\n")
}

func (t *T) Failf(format string, a ...interface{}) { t.FailKey("", format, a...) }

func (t *T) FailKey(key, format string, a ...interface{}) {
	t.failed = true
	c := t.c
	if len(c.res.Violations) < maxViolations {
		msg := fmt.Sprintf(format, a...)
		if len(msg) > 4000 {
			msg = msg[:4000] + "..."
		}
		c.res.Violations = append(c.res.Violations, Violation{t.s.st.Name, t.s.idx, msg, key})
	}
}

// Ops counts n executed operations of the real code.
func (t *T) Ops(n int) {
	t.c.res.Trans += int64(n)
	atomic.StoreInt64(&heartbeat, time.Now().UnixNano())
}

// State records a visited state (configuration and what was observed in it).
func (t *T) State(parts ...[]byte) {
	h := mix(hashSeed, []byte(t.s.st.Name))
	for _, p := range parts {
		h = mix(h, p)
	}
	t.c.states[h] = struct{}{}
}

func (t *T) StateH(h uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], h)
	t.State(b[:])
}

// Outcome records what was observed, to show that outcomes do differ.
func (t *T) Outcome(b []byte) { t.c.outcomes[mix(1, b)] = struct{}{} }

func (t *T) Sample(f func() string) { t.sample = f }

// hook fetches an in-package adapter.
func hook[F any](name string) (F, bool) {
	f, ok := crypto.VerifHooks[name].(F)
	return f, ok
}

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d + "/"
	}
	return "/repo/"
}()

type checkFunc func(c *Ctx)

var checks = map[string]checkFunc{}

var realStdout *os.File

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int64("shard", 0, "shard")
	nshards := flag.Int64("nshards", 1, "shards")
	only := flag.String("only", "", "section#index")
	prefix := flag.Bool("prefix", false, "with -only: run everything of this shard up to the case")
	secs := flag.Float64("deadline", 600, "seconds until the exploration stops")
	out := flag.String("out", "", "result file")
	hashes := flag.String("hashes", "", "state hash file")
	merge := flag.Bool("merge", false, "count the union of the hash files given")
	hang := flag.Float64("hang", 75, "seconds without an operation after which a case counts as hanging")
	trace := flag.String("trace", "", "file that names the running case")
	flag.Parse()
	if *trace != "" {
		traceFile, _ = os.Create(*trace)
	}
	realStdout = os.Stdout
	if *merge {
		mergeHashes(flag.Args())
		return
	}
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn // the library prints errors
	}
	if spec := os.Getenv("VERIF_C10_CHILD"); spec != "" {
		c10child(spec)
	}
	if spec := os.Getenv("VERIF_C12_CHILD"); spec != "" {
		if strings.HasPrefix(spec, "free,") {
			c12freeChild(spec)
		}
		c12child(spec)
	}
	start := time.Now()
	if err := ref.SelfCheck(); err != nil {
		fmt.Fprintln(os.Stderr, "reference self-check failed:", err)
		os.Exit(2)
	}
	c := &Ctx{Prop: *prop, Tier: *tier, Thorough: *tier == "thorough", shard: *shard, nshards: *nshards, onlyIdx: -1,
		prefix: *prefix, deadline: start.Add(time.Duration(*secs * float64(time.Second))), states: map[uint64]struct{}{}}
	if *only != "" {
		i := strings.LastIndex(*only, "#")
		c.onlySec = (*only)[:i]
		n, err := strconv.ParseInt((*only)[i+1:], 10, 64)
		if err != nil {
			panic(err)
		}
		c.onlyIdx = n
	}
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		os.Exit(2)
	}
	finish := func() {
		c.res.Wall = time.Since(start).Seconds()
		if *out != "" {
			b, _ := json.Marshal(&c.res)
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				panic(err)
			}
		}
		if *hashes != "" {
			writeHashes(*hashes, c.states)
		}
		for _, v := range c.res.Violations {
			fmt.Fprintf(realStdout, "FAIL %s#%d %s\n", v.Section, v.Index, v.Msg)
		}
	}
	go func() {
		for {
			time.Sleep(time.Second)
			hb := atomic.LoadInt64(&heartbeat)
			if hb != 0 && time.Since(time.Unix(0, hb)).Seconds() > *hang {
				fmt.Fprintf(realStdout, "HANG %s#%d\n", currentSec, currentIdx)
				os.Exit(4)
			}
		}
	}()
	atomic.StoreInt64(&heartbeat, time.Now().UnixNano())
	runCheck(c, f)
	atomic.StoreInt64(&heartbeat, 0)
	finish()
	if len(c.res.Violations) > 0 {
		os.Exit(1)
	}
}

// runCheck catches panics outside of cases: in the code under test they are a
// violation, in the harness an error of the check.
func runCheck(c *Ctx, f checkFunc) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if tr := trimStack([]byte(st)); tr != "" {
				c.res.Violations = append(c.res.Violations, Violation{"preparation", 0, fmt.Sprintf("panic while preparing cases: %v\n%s", e, tr), ""})
				return
			}
			fmt.Fprintf(os.Stderr, "harness self-check failed: panic %v\n%s", e, st)
			os.Exit(2)
		}
	}()
	f(c)
	if c.Prop != "C11" {
		history(c, c.Prop)
	}
	aliasSection(c, c.Prop)
}

func writeHashes(path string, m map[uint64]struct{}) {
	a := make([]uint64, 0, len(m))
	for k := range m {
		a = append(a, k)
	}
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	b := make([]byte, 8*len(a))
	for i, v := range a {
		binary.LittleEndian.PutUint64(b[8*i:], v)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func mergeHashes(files []string) {
	var all []uint64
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			all = append(all, binary.LittleEndian.Uint64(b[i:]))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i, v := range all {
		if i == 0 || v != all[i-1] {
			n++
		}
	}
	fmt.Println(n)
}
