// Package vlib holds the shared machinery of the checks: sharded exhaustive enumeration in worker processes, violation
// confirmation and replay, known findings and evidence.
package vlib

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hauke96/sigolo/v2"
)

// Check describes one property's check.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string
	Assumptions []string
	Bounds      map[string]string // tier -> description of the bound
	Run         func(c *Ctx)
	Workers     int // number of worker processes, 0 = 8
	QuickS      int // internal time budget of the quick tier in seconds
	ThoroughS   int
	HangS       int // a single case running longer than this is a hang (0 = 60)
	// Setup runs once in the parent before the workers start; its result is passed to the workers by environment.
	Setup func() map[string]string
}

// Ctx is what a check's enumeration works with inside a worker.
type Ctx struct {
	Check   *Check
	Tier    string
	Seed    int64
	Shard   int
	Shards  int
	Scratch string

	res      *Result
	index    int64
	mine     int64
	deadline time.Time
	stop     string // file which exists when there are enough violations
	replay   string
	until    int64 // last case to run, 0 for all
	curFile  *os.File
	skip     map[string]bool
	started  chan struct{}
	mu       sync.Mutex
	curKey   string
	curStart time.Time
}

type Violation struct {
	Key     string  `json:"case"`
	Bad     string  `json:"what"`
	Detail  string  `json:"detail"`
	History History `json:"history"`
}

// History identifies the cases a worker had run before a violation showed up.
type History struct {
	Shard  int      `json:"shard"`
	Shards int      `json:"shards"`
	Index  int64    `json:"index"` // of the violating case, 0 for the one that ends the worker
	Skip   []string `json:"skip"`
}

type Result struct {
	Enumerated  int64
	Evaluations int64
	Nontrivial  int64
	Steps       int64
	Traces      int64
	Outcomes    map[uint64]struct{}
	StateSet    map[uint64]struct{}
	Samples     []string
	Violations  []Violation
	Known       map[string]int64
	Capped      bool
	Extra       map[string]int64
}

func newResult() *Result {
	return &Result{Outcomes: map[uint64]struct{}{}, StateSet: map[uint64]struct{}{}, Known: map[string]int64{}, Extra: map[string]int64{}}
}

// Thorough tells whether the deep tier is running.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns the quick or the thorough value of a bound.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Expired tells whether the time budget of this run is used up. The run is then reported as capped.
func (c *Ctx) Expired() bool {
	if c.replay == "" && time.Now().After(c.deadline) {
		c.res.Capped = true
		return true
	}
	if c.replay == "" && c.stop != "" {
		if _, err := os.Stat(c.stop); err == nil { // enough violations were found
			c.res.Capped = true
			return true
		}
	}
	return false
}

func (c *Ctx) Count(name string, n int64) { c.res.Extra[name] += n }

// Outcome is what one execution showed.
type Outcome struct {
	Bad        string // non-empty: the property is violated
	Detail     string
	Finding    string // case key under which a known finding is listed (default: the key of the case)
	Trivial    bool
	Observed   string   // canonical observation, counted as distinct outcome
	States     []string // canonical model states visited
	Steps      int64    // transitions taken
	Executions int64    // executions of the real code (default 1)
}

func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Do runs one case of the enumeration. It returns true when the enumeration should stop.
func (c *Ctx) Do(key string, f func() Outcome) bool {
	c.index++
	if c.replay != "" {
		if key != c.replay {
			return false
		}
	} else {
		c.res.Enumerated++
		if c.until > 0 && c.index > c.until {
			return true
		}
		if int(c.index%int64(c.Shards)) != c.Shard%c.Shards || c.skip[key] {
			return false
		}
		c.mine++
		if c.res.Capped || (c.mine&7 == 0 && c.Expired()) {
			return true
		}
	}
	c.begin(key)
	out := c.guarded(f)
	c.end()

	r := c.res
	r.Evaluations++
	if out.Executions == 0 {
		out.Executions = 1
	}
	r.Traces += out.Executions
	if !out.Trivial {
		r.Nontrivial++
	}
	if out.Steps == 0 {
		out.Steps = 1
	}
	r.Steps += out.Steps
	r.Outcomes[Hash64(out.Observed)] = struct{}{}
	if out.States == nil {
		r.StateSet[Hash64("key:"+key)] = struct{}{}
	}
	for _, s := range out.States {
		r.StateSet[Hash64(s)] = struct{}{}
	}
	if len(r.Samples) < 3 || (len(r.Samples) < 6 && r.Evaluations%997 == 0) {
		r.Samples = append(r.Samples, trunc(key, 600)+"  =>  "+trunc(out.Observed, 600))
	}
	if out.Bad != "" {
		fkey := key
		if out.Finding != "" {
			fkey = out.Finding
		}
		if id := knownFinding(c.Check.ID, fkey, out.Bad); id != "" {
			r.Known[id]++
		} else if len(r.Violations) < 20 {
			r.Violations = append(r.Violations, Violation{Key: key, Bad: out.Bad, Detail: out.Detail, History: History{Index: c.index}})
			if len(r.Violations) == 10 && c.stop != "" {
				os.WriteFile(c.stop, nil, 0644)
			}
			if c.replay != "" {
				return true
			}
		} else {
			return true
		}
	}
	// Go on when replaying: the same case may occur again, e.g. with another configuration.
	return false
}

// Replay returns the case that is to be replayed, or "".
func (c *Ctx) Replay() string { return c.replay }

// Exec runs one case on this worker regardless of sharding (the caller divides the work).
func (c *Ctx) Exec(key string, f func() Outcome) bool {
	if c.replay == "" && c.skip[key] {
		return false
	}
	save, si := c.Shards, c.Shard
	c.Shards, c.Shard = 1, 0
	defer func() { c.Shards, c.Shard = save, si }()
	return c.Do(key, f)
}

// FatalError is what a fatal log call of the program turns into inside a worker.
type FatalError struct{ Message string }

func (f FatalError) Error() string { return "fatal log: " + f.Message }

func (c *Ctx) guarded(f func() Outcome) (out Outcome) {
	defer func() {
		if e := recover(); e != nil {
			if fe, ok := e.(FatalError); ok {
				out = Outcome{Bad: "fatal error: " + firstLine(fe.Message), Detail: fe.Message, Observed: "fatal"}
				return
			}
			out = Outcome{Bad: "panic: " + firstLine(fmt.Sprint(e)), Detail: string(debug.Stack()), Observed: "panic"}
		}
	}()
	return f()
}

// Catch runs f and returns what went wrong: "" or "panic: ..." or "fatal: ...".
func Catch(f func()) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			if fe, ok := e.(FatalError); ok {
				bad = "fatal: " + firstLine(fe.Message)
				return
			}
			bad = "panic: " + firstLine(fmt.Sprint(e))
		}
	}()
	f()
	return ""
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return trunc(s, 300)
}

func trunc(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "…"
	}
	return strings.ToValidUTF8(s, "\uFFFD")
}

func (c *Ctx) begin(key string) {
	c.mu.Lock()
	c.curKey, c.curStart = key, time.Now()
	c.mu.Unlock()
	if c.curFile != nil {
		buf := make([]byte, 8+len(key))
		copy(buf, fmt.Sprintf("%07d\n", len(key)))
		copy(buf[8:], key)
		c.curFile.WriteAt(buf, 0)
	}
}

func (c *Ctx) end() {
	c.mu.Lock()
	c.curKey = ""
	c.mu.Unlock()
}

func readCurrent(path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return ""
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b[:8])))
	if err != nil || 8+n > len(b) {
		return ""
	}
	return string(b[8 : 8+n])
}

// Root is the directory of the committed verification files.
func Root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

type finding struct {
	Property string   `json:"property"`
	ID       string   `json:"id"`
	Case     string   `json:"case"`  // exact case key
	Cases    []string `json:"cases"` // exact case keys
	Bad      string   `json:"bad"`   // exact report
	What     string   `json:"what"`
	Status   string   `json:"status"` // "known" or "fixed: ..."
}

var (
	findingsOnce sync.Once
	findings     []finding
)

func loadFindings() {
	b, err := os.ReadFile(filepath.Join(Root(), "known_findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	findings = f.Findings
}

func knownFinding(property, key, bad string) string {
	findingsOnce.Do(loadFindings)
	for _, f := range findings {
		if f.Property != property || f.Status != "known" {
			continue
		}
		if f.Bad != "" && f.Bad != bad {
			continue
		}
		if f.Case == key {
			return f.ID
		}
		for _, k := range f.Cases {
			if k == key {
				return f.ID
			}
		}
	}
	return ""
}

// Main runs the check in the role given by the environment: parent, worker or replay.
func Main(checks ...*Check) {
	// A harness binary is also used as stand-in for external programs.
	var check *Check
	id := os.Getenv("VERIF_PROPERTY")
	for _, ch := range checks {
		if ch.ID == id {
			check = ch
		}
	}
	if check == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(3)
	}
	if os.Getenv("VERIF_SHARD") != "" {
		worker(check)
		return
	}
	parent(check)
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func worker(check *Check) {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	dl, _ := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64)
	c := &Ctx{Check: check, Tier: tier(), Seed: seed(), Shard: shard, Shards: shards, Scratch: os.Getenv("VERIF_SCRATCH"), stop: os.Getenv("VERIF_STOP"), res: newResult(), deadline: time.Unix(0, dl), skip: map[string]bool{}}
	if k := os.Getenv("VERIF_REPLAY_FILE"); k != "" {
		b, err := os.ReadFile(k)
		if err != nil {
			panic(err)
		}
		c.replay = string(b)
	}
	c.until, _ = strconv.ParseInt(os.Getenv("VERIF_UNTIL"), 10, 64)
	if k := os.Getenv("VERIF_SKIP_FILE"); k != "" {
		var keys []string
		b, _ := os.ReadFile(k)
		json.Unmarshal(b, &keys)
		for _, x := range keys {
			c.skip[x] = true
		}
	}
	if k := os.Getenv("VERIF_CUR"); k != "" {
		c.curFile, _ = os.Create(k)
	}
	sigolo.VerifSilent = os.Getenv("VERIF_LOUD") == ""
	sigolo.VerifOnFatal = func(m string) { panic(FatalError{m}) }
	hang := time.Duration(check.HangS) * time.Second
	if hang == 0 {
		hang = 60 * time.Second
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c.mu.Lock()
			k, s := c.curKey, c.curStart
			c.mu.Unlock()
			if k != "" && time.Since(s) > hang {
				fmt.Fprintf(os.Stderr, "HANG in case %s\n", trunc(k, 2000))
				os.Exit(77)
			}
		}
	}()
	check.Run(c)
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(c.res); err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Getenv("VERIF_RESULT"), buf.Bytes(), 0644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

func runWorker(env map[string]string, scratch string) (rc int, res *Result, output string) {
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "XDG_CACHE_HOME="+filepath.Join(filepath.Dir(env["VERIF_RESULT"]), "xdg-"+env["VERIF_SHARD"]))
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	if err != nil {
		rc = 1
		if ee, ok := err.(*exec.ExitError); ok {
			rc = ee.ExitCode()
		}
	}
	b, e := os.ReadFile(env["VERIF_RESULT"])
	if e == nil {
		res = newResult()
		if gob.NewDecoder(bytes.NewReader(b)).Decode(res) != nil {
			res = nil
		}
	}
	return rc, res, out.String()
}

func parent(check *Check) {
	start := time.Now()
	t := tier()
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if d, err := os.MkdirTemp("/dev/shm", "verif-probe-"); err == nil {
			os.Remove(d)
			base = "/dev/shm"
		}
	}
	scratch, err := os.MkdirTemp(base, "verif-"+check.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	code := 3
	func() {
		defer os.RemoveAll(scratch)
		defer func() {
			if e := recover(); e != nil {
				fmt.Fprintf(os.Stderr, "check failed: %v\n%s", e, debug.Stack())
			}
		}()
		code = parentIn(check, t, scratch, start)
	}()
	os.Exit(code)
}

func parentIn(check *Check, t string, scratch string, start time.Time) int {
	extraEnv := map[string]string{}
	if check.Setup != nil {
		os.Setenv("VERIF_SCRATCH", scratch)
		extraEnv = check.Setup()
	}
	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		return replayFile(check, rf, scratch, extraEnv)
	}
	budget := check.QuickS
	if budget == 0 {
		budget = 60
	}
	if t == "thorough" {
		budget = check.ThoroughS
		if budget == 0 {
			budget = 600
		}
	}
	if b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && b > 0 {
		budget = b
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	n := check.Workers
	if n == 0 {
		n = 8
	}
	total := newResult()
	var mu sync.Mutex
	var wg sync.WaitGroup
	broken := ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var skip []string
			for attempt := 0; attempt < 4; attempt++ {
				dir := filepath.Join(scratch, fmt.Sprintf("w%d_%d", i, attempt))
				os.MkdirAll(dir, 0755)
				skipFile := filepath.Join(scratch, fmt.Sprintf("skip%d", i))
				sb, _ := json.Marshal(skip)
				os.WriteFile(skipFile, sb, 0644)
				env := map[string]string{
					"VERIF_SHARD": strconv.Itoa(i), "VERIF_SHARDS": strconv.Itoa(n),
					"VERIF_DEADLINE": strconv.FormatInt(deadline.UnixNano(), 10),
					"VERIF_SCRATCH":  dir, "VERIF_RESULT": filepath.Join(scratch, fmt.Sprintf("r%d_%d", i, attempt)),
					"VERIF_CUR": filepath.Join(scratch, fmt.Sprintf("c%d_%d", i, attempt)), "VERIF_SKIP_FILE": skipFile,
					"VERIF_STOP": filepath.Join(scratch, "stop"),
					"GOMAXPROCS": "2",
				}
				for k, v := range extraEnv {
					env[k] = v
				}
				rc, res, out := runWorker(env, dir)
				os.RemoveAll(dir)
				if rc == 0 && res != nil {
					mu.Lock()
					for j := range res.Violations {
						h := &res.Violations[j].History
						h.Shard, h.Shards, h.Skip = i, n, slices.Clone(skip)
					}
					merge(total, res)
					mu.Unlock()
					return
				}
				cur := readCurrent(env["VERIF_CUR"])
				mu.Lock()
				if cur == "" {
					broken = fmt.Sprintf("worker %d ended with %d outside any case:\n%s", i, rc, tail(out, 3000))
					mu.Unlock()
					return
				}
				what := "the program ended the process (exit code " + strconv.Itoa(rc) + ")"
				if rc == 77 {
					what = "no result within the time limit (endless loop)"
				} else if strings.Contains(out, "stack overflow") || strings.Contains(out, "stack exceeds") {
					what = "stack overflow"
				} else if k := strings.Index(out, "fatal error: "); k >= 0 {
					what = firstLine(out[k:])
				} else if k := strings.Index(out, "panic: "); k >= 0 {
					what = firstLine(out[k:])
				}
				if id := knownFinding(check.ID, cur, what); id != "" {
					total.Known[id]++
				} else {
					total.Violations = append(total.Violations, Violation{Key: cur, Bad: what, Detail: tail(out, 3000), History: History{Shard: i, Shards: n, Skip: slices.Clone(skip)}})
					if len(total.Violations) == 4 {
						os.WriteFile(filepath.Join(scratch, "stop"), nil, 0644)
					}
				}
				mu.Unlock()
				skip = append(skip, cur)
				if rc == 77 || time.Now().After(deadline) {
					mu.Lock()
					total.Capped = true
					mu.Unlock()
					return
				}
			}
		}(i)
	}
	wg.Wait()
	if broken != "" && len(total.Violations) == 0 {
		fmt.Fprintln(os.Stderr, broken)
		return 3
	}

	// Confirm violations: shortest first, each must show up again in replays.
	sort.SliceStable(total.Violations, func(i, j int) bool {
		a, b := total.Violations[i], total.Violations[j]
		if len(a.Key) != len(b.Key) {
			return len(a.Key) < len(b.Key)
		}
		return a.Key < b.Key
	})
	confirmed := 0
	exit := 0
	report := func(v Violation, history bool) {
		path := filepath.Join(Root(), "evidence", "replays", fmt.Sprintf("%s-%d.json", check.ID, confirmed))
		os.MkdirAll(filepath.Dir(path), 0755)
		what := map[string]any{"property": check.ID, "case": v.Key, "what": v.Bad, "detail": v.Detail,
			"how_to_replay": "VERIF_REPLAY=" + path + " bash /verif/run.sh " + check.ID}
		if history {
			what["history"], what["tier"] = v.History, t
		}
		b, _ := json.MarshalIndent(what, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, path)
		fmt.Printf("  case: %s\n  what: %s\n", trunc(v.Key, 1500), trunc(v.Bad, 1500))
		if history {
			fmt.Printf("  (after the cases run before by worker %d)\n", v.History.Shard)
		}
		confirmed++
		exit = 1
	}
	var unconfirmed []Violation
	again := make([]bool, len(total.Violations)) // which violations showed up in every replay
	for i, v := range total.Violations {
		if confirmed >= 3 || len(unconfirmed) >= 6 {
			break
		}
		if i%3 == 0 {
			var wg sync.WaitGroup
			var mu sync.Mutex
			for j := i; j < len(total.Violations) && j < i+3; j++ {
				again[j] = true
				for k := 0; k < 3; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						bad, _ := replayKey(check, total.Violations[j].Key, scratch, extraEnv, fmt.Sprintf("cf%d_%d", j, k))
						mu.Lock()
						again[j] = again[j] && bad != ""
						mu.Unlock()
					}()
				}
			}
			wg.Wait()
		}
		if !again[i] {
			unconfirmed = append(unconfirmed, v)
			continue
		}
		report(v, false)
	}
	if confirmed == 0 && len(unconfirmed) > 0 {
		// Perhaps the violations depend on the cases in front of them: run these again, too.
		sort.SliceStable(unconfirmed, func(i, j int) bool {
			a, b := unconfirmed[i].History.Index, unconfirmed[j].History.Index
			return b == 0 && a != 0 || a < b && a != 0
		})
		limit := start.Add(850 * time.Second)
		if t == "thorough" {
			limit = time.Now().Add(time.Hour)
		}
		for i := 0; i < len(unconfirmed) && i < 2 && confirmed == 0; i++ {
			v := unconfirmed[i]
			var shown [2]bool
			var wg sync.WaitGroup
			for k := range shown {
				wg.Add(1)
				go func() {
					defer wg.Done()
					shown[k] = rerun(v, scratch, extraEnv, fmt.Sprintf("again%d_%d", i, k), limit)
				}()
			}
			wg.Wait()
			if shown[0] && shown[1] {
				report(v, true)
			}
		}
		if confirmed == 0 {
			for _, v := range unconfirmed {
				fmt.Fprintf(os.Stderr, "note: not reproducible, ignored: %s: %s\n", trunc(v.Key, 300), trunc(v.Bad, 1500))
			}
		}
	}
	findingsOnce.Do(loadFindings)
	var ids []string
	for id := range total.Known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for _, f := range findings {
			if f.ID == id && f.Property == check.ID {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", check.ID, id, f.What)
			}
		}
	}

	samples := []any{}
	for _, s := range total.Samples {
		if len(samples) < 8 {
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"evaluations": total.Evaluations, "distinct_nontrivial": min64(total.Nontrivial, int64(len(total.StateSet))), "rule": check.Rule, "samples": samples,
		"states": len(total.StateSet), "transitions": total.Steps, "traces_validated_against_impl": total.Traces,
		"distinct_outcomes": len(total.Outcomes), "exhaustive": !total.Capped, "bound": check.Bounds[t], "unconfirmed_reports": len(unconfirmed),
	}
	for k, v := range total.Extra {
		cov["x_"+k] = v
	}
	ev := map[string]any{
		"property": check.ID, "tier": t, "seed": seed(), "level": check.Level, "coverage": cov,
		"assumptions": check.Assumptions, "wall_s": round2(time.Since(start).Seconds()), "violations": confirmed,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(Root(), "evidence", check.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d outcomes, exhaustive=%v, %.1fs\n", check.ID, t, total.Traces, len(total.StateSet), total.Steps, len(total.Outcomes), !total.Capped, time.Since(start).Seconds())
	if exit == 0 && broken != "" {
		return 3
	}
	return exit
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func merge(t, r *Result) {
	t.Evaluations += r.Evaluations
	t.Nontrivial += r.Nontrivial
	t.Steps += r.Steps
	t.Traces += r.Traces
	for k := range r.Outcomes {
		t.Outcomes[k] = struct{}{}
	}
	for k := range r.StateSet {
		t.StateSet[k] = struct{}{}
	}
	if len(t.Samples) < 12 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.Violations = append(t.Violations, r.Violations...)
	for k, v := range r.Known {
		t.Known[k] += v
	}
	for k, v := range r.Extra {
		t.Extra[k] += v
	}
	t.Capped = t.Capped || r.Capped
}

func replayKey(check *Check, key, scratch string, extra map[string]string, tag string) (string, string) {
	dir := filepath.Join(scratch, tag)
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	kf := filepath.Join(scratch, tag+".key")
	os.WriteFile(kf, []byte(key), 0644)
	env := map[string]string{
		"VERIF_SHARD": "0", "VERIF_SHARDS": "1", "VERIF_DEADLINE": strconv.FormatInt(time.Now().Add(time.Hour).UnixNano(), 10),
		"VERIF_SCRATCH": dir, "VERIF_RESULT": filepath.Join(scratch, tag+".res"), "VERIF_CUR": filepath.Join(scratch, tag+".cur"),
		"VERIF_REPLAY_FILE": kf,
	}
	for k, v := range extra {
		env[k] = v
	}
	rc, res, out := runWorker(env, dir)
	if rc != 0 || res == nil {
		if readCurrent(env["VERIF_CUR"]) == "" {
			return "", out // ended outside the case
		}
		return fmt.Sprintf("worker ended with %d", rc), out
	}
	for _, v := range res.Violations {
		return v.Bad, v.Detail + "\n" + out
	}
	return "", out
}

// rerun runs all cases of a worker up to the violation and tells whether it shows up again.
func rerun(v Violation, scratch string, extra map[string]string, tag string, limit time.Time) bool {
	dir := filepath.Join(scratch, tag)
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	skip, _ := json.Marshal(v.History.Skip)
	os.WriteFile(filepath.Join(scratch, tag+".skip"), skip, 0644)
	env := map[string]string{
		"VERIF_SHARD": strconv.Itoa(v.History.Shard), "VERIF_SHARDS": strconv.Itoa(v.History.Shards), "VERIF_UNTIL": strconv.FormatInt(v.History.Index, 10),
		"VERIF_DEADLINE": strconv.FormatInt(limit.UnixNano(), 10), "VERIF_SKIP_FILE": filepath.Join(scratch, tag+".skip"),
		"VERIF_SCRATCH": dir, "VERIF_RESULT": filepath.Join(scratch, tag+".res"), "VERIF_CUR": filepath.Join(scratch, tag+".cur"),
		"GOMAXPROCS": "2",
	}
	for k, v := range extra {
		env[k] = v
	}
	rc, res, _ := runWorker(env, dir)
	if rc != 0 || res == nil {
		return readCurrent(env["VERIF_CUR"]) == v.Key
	}
	return slices.ContainsFunc(res.Violations, func(w Violation) bool { return w.Key == v.Key && w.History.Index == v.History.Index })
}

func replayFile(check *Check, path, scratch string, extra map[string]string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v struct {
		Case    string   `json:"case"`
		Bad     string   `json:"what"`
		History *History `json:"history"`
	}
	if json.Unmarshal(b, &v) != nil || v.Case == "" {
		v.Case = string(b)
	}
	if v.History != nil {
		if rerun(Violation{Key: v.Case, Bad: v.Bad, History: *v.History}, scratch, extra, "rp", time.Now().Add(time.Hour)) {
			fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  what: %s\n", check.ID, path, v.Case, v.Bad)
			return 1
		}
		fmt.Printf("replay of %s: no violation\n", path)
		return 0
	}
	bad, detail := replayKey(check, v.Case, scratch, extra, "rp")
	if bad != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  what: %s\n%s\n", check.ID, path, v.Case, bad, detail)
		return 1
	}
	fmt.Printf("replay of %s: no violation\n%s\n", path, detail)
	return 0
}
