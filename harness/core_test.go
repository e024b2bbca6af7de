package zzverif

// Driver shared by all of the properties. The parent process runs a number of
// shards, each of which is a process of its own that checks the property over
// generated cases; it then merges what they covered into the evidence file and
// reports the smallest failing case as the replay file.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	tierFlag     = flag.String("verif.tier", "quick", "quick or thorough")
	seedFlag     = flag.Int64("verif.seed", 1, "seed")
	replayFlag   = flag.String("verif.replay", "", "replay file to run instead of generated cases")
	evidenceFlag = flag.String("verif.evidence", "", "evidence file")
	replayDir    = flag.String("verif.replaydir", "", "directory for replay files")
	knownFlag    = flag.String("verif.known", "", "known findings")
	scaleFlag    = flag.Float64("verif.scale", 1, "multiplier of the number of cases")
	shardsFlag   = flag.Int("verif.shards", 8, "number of processes")
	budgetFlag   = flag.Duration("verif.budget", 0, "stop generating after this long (0: by tier)")
	fuzzBinFlag  = flag.String("verif.fuzzbin", "", "instrumented binary for the coverage-guided stage")
	fuzzTimeFlag = flag.Duration("verif.fuzztime", 0, "duration of the coverage-guided stage")

	// set for the shards.
	childFlag   = flag.String("verif.child", "", "directory for the results of a shard")
	casesFlag   = flag.Int("verif.cases", 0, "number of cases for a shard")
	historyFlag = flag.Bool("verif.history", false, "negotiate and write the responses")
	persistFlag = flag.Bool("verif.persist", false, "keep the case at hand on disk")
)

// hangAfter is how long a case, which takes milliseconds, may take.
const hangAfter = 90 * time.Second

// Info is what a property reports about one case.
type Info struct {
	NonTrivial bool
	Classes    []string
}

func (i *Info) class(format string, args ...any) {
	if i != nil {
		i.Classes = append(i.Classes, fmt.Sprintf(format, args...))
	}
}

// Prop describes one property: generator, oracle and how much to run.
type Prop[C any] struct {
	ID    string
	Title string
	Rule  string // what counts as non-trivial
	Gen   func(t *rapid.T) C
	Run   func(c C, info *Info) error
	Fixed []C // cases that are always run
	Quick int // number of cases in the quick tier
	Deep  int // number of cases in the thorough tier

	Persist     bool // keep the case on disk while it runs, for crashes
	Technique   string
	Assumptions []string
	Probes      []Probe[C] // cases that known findings are about
}

// Probe is a case known to fail, by the key it is listed under among the known
// findings. It is a violation like any other unless it is listed.
type Probe[C any] struct {
	Key  string
	Case C
}

type failure struct {
	Property string          `json:"property"`
	Failure  string          `json:"failure"`
	Case     json.RawMessage `json:"case"`
}

type shardResult struct {
	Done        bool
	Evaluations int
	Nontrivial  int
	Hashes      []uint64
	Classes     map[string]int
	Samples     []json.RawMessage
	Failure     *failure
	Exhausted   bool // ran out of time before the cases
}

func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (p Prop[C]) fail(c C, what string) *failure {
	b, err := json.Marshal(c)
	if err != nil {
		panic("harness: cannot encode case: " + err.Error())
	}
	return &failure{Property: p.ID, Failure: what, Case: b}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path+".tmp", append(b, '\n'), 0o644)
	}
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		fmt.Printf("HARNESS-ERROR: %v\n", err)
		os.Exit(2)
	}
}

// ---- shard ----------------------------------------------------------------

func (p Prop[C]) shard(t *testing.T) {
	var (
		out     = filepath.Join(*childFlag, "result.json")
		res     = shardResult{Classes: map[string]int{}}
		seen    = map[uint64]bool{}
		started = time.Now()
		budget  = *budgetFlag
		mu      sync.Mutex
		current atomic.Pointer[C]
		since   atomic.Int64
	)
	finish := func() {
		mu.Lock()
		defer mu.Unlock()
		for h := range seen {
			res.Hashes = append(res.Hashes, h)
		}
		writeJSON(out, res)
	}
	go func() {
		for range time.Tick(time.Second) {
			c := current.Load()
			if c != nil && time.Since(time.Unix(0, since.Load())) > hangAfter {
				mu.Lock()
				r := shardResult{Done: true, Classes: map[string]int{}, Failure: p.fail(*c, fmt.Sprintf("did not return within %v", hangAfter))}
				writeJSON(out, r)
				os.Exit(0)
			}
		}
	}()
	eval := func(c C) error {
		var info Info
		if *persistFlag || p.Persist {
			writeJSON(filepath.Join(*childFlag, "current.json"), p.fail(c, "the process died"))
		}
		since.Store(time.Now().UnixNano())
		current.Store(&c)
		err := safely(func() error { return p.Run(c, &info) })
		current.Store(nil)
		if err != nil {
			f := p.fail(c, err.Error())
			if res.Failure == nil || len(f.Case) <= len(res.Failure.Case) {
				res.Failure = f
			}
			return err
		}
		if res.Failure != nil {
			return nil // shrinking
		}
		res.Evaluations++
		for _, cl := range info.Classes {
			res.Classes[cl]++
		}
		if info.NonTrivial {
			b, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write(b)
			res.Nontrivial++
			if !seen[h.Sum64()] {
				seen[h.Sum64()] = true
				// a few samples spread over the run.
				if n := len(seen); n&(n-1) == 0 && n >= 4 && len(res.Samples) < 3 && len(b) < 3000 {
					res.Samples = append(res.Samples, b)
				}
			}
		}
		return nil
	}
	for _, c := range p.Fixed {
		if eval(c) != nil {
			res.Done = true
			finish()
			return
		}
	}
	defer func() {
		res.Done = true
		finish()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if res.Failure == nil && time.Since(started) > budget {
			res.Exhausted = true
			return
		}
		c := p.Gen(rt)
		if err := eval(c); err != nil {
			rt.Fatalf("%s", firstLine(err.Error()))
		}
	})
}

// ---- parent ---------------------------------------------------------------

func run[C any](t *testing.T, p Prop[C]) {
	switch {
	case *replayFlag != "":
		p.replay(t)
	case *childFlag != "":
		set := func(name, value string) {
			if err := flag.Set(name, value); err != nil {
				t.Fatal(err)
			}
		}
		set("rapid.checks", strconv.Itoa(*casesFlag))
		set("rapid.seed", strconv.FormatUint(uint64(*seedFlag), 10))
		set("rapid.nofailfile", "true")
		set("rapid.shrinktime", "20s")
		p.shard(t)
	default:
		p.parent(t)
	}
}

func (p Prop[C]) replay(t *testing.T) {
	b, err := os.ReadFile(*replayFlag)
	if err != nil {
		t.Fatal(err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatal(err)
	}
	var c C
	if err := json.Unmarshal(f.Case, &c); err != nil {
		t.Fatal(err)
	}
	if err := safely(func() error { return p.Run(c, new(Info)) }); err != nil {
		fmt.Printf("FAILURE property=%s: %s\n", p.ID, err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *replayFlag)
		os.Exit(1)
	}
	fmt.Printf("property=%s held on the replayed case\n", p.ID)
}

func (p Prop[C]) spawn(dir string, seed int64, cases int, budget time.Duration, persist bool) (res shardResult, crash *failure, err error) {
	_ = os.MkdirAll(dir, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), budget+4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^Test"+p.ID+"$", "-test.timeout", "0",
		"-verif.child", dir, "-verif.seed", strconv.FormatInt(seed, 10), "-verif.cases", strconv.Itoa(cases),
		"-verif.tier", *tierFlag, "-verif.budget", budget.String(), "-verif.persist="+strconv.FormatBool(persist))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	runErr := cmd.Run()
	b, readErr := os.ReadFile(filepath.Join(dir, "result.json"))
	if readErr == nil {
		readErr = json.Unmarshal(b, &res)
	}
	if readErr == nil && res.Done {
		return res, nil, nil
	}
	// the process died.
	if b, e := os.ReadFile(filepath.Join(dir, "current.json")); e == nil {
		var f failure
		if json.Unmarshal(b, &f) == nil {
			f.Failure = fmt.Sprintf("the process died: %v\n%s", runErr, headOf(log.String(), 4000))
			return res, &f, nil
		}
	}
	return res, nil, fmt.Errorf("shard died: %v\n%s", runErr, headOf(log.String(), 6000))
}

func headOf(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func (p Prop[C]) parent(t *testing.T) {
	start := time.Now()
	n, budget := p.Quick, 150*time.Second
	if *tierFlag == "thorough" {
		n, budget = p.Deep, 8*time.Minute
	}
	if *budgetFlag > 0 {
		budget = *budgetFlag
	}
	n = int(float64(n) * *scaleFlag)
	shards := *shardsFlag
	if n < shards {
		shards = n
	}
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)

	type outcome struct {
		res   shardResult
		crash *failure
		err   error
	}
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			// far apart, as the cases of a shard have seeds close to each other;
			// never 0, which rapid takes for "random".
			seed := int64((uint64(*seedFlag*64+int64(i)+1)*0x9e3779b97f4a7c15)>>1 | 1)
			o := &outs[i]
			dir := filepath.Join(tmp, strconv.Itoa(i))
			o.res, o.crash, o.err = p.spawn(dir, seed, n/shards, budget, false)
			if o.err != nil {
				// again, keeping track of the case at hand.
				o.res, o.crash, o.err = p.spawn(dir+"p", seed, n/shards, budget, true)
			}
		}(i)
	}
	wg.Wait()

	var (
		total    = shardResult{Classes: map[string]int{}}
		distinct = map[uint64]bool{}
		worst    *failure
		broken   error
	)
	consider := func(f *failure) {
		if f != nil && (worst == nil || len(f.Case) < len(worst.Case)) {
			worst = f
		}
	}
	for _, o := range outs {
		consider(o.res.Failure)
		consider(o.crash)
		if o.err != nil {
			broken = o.err
		}
		total.Evaluations += o.res.Evaluations
		total.Nontrivial += o.res.Nontrivial
		total.Exhausted = total.Exhausted || o.res.Exhausted
		for _, h := range o.res.Hashes {
			distinct[h] = true
		}
		for k, v := range o.res.Classes {
			total.Classes[k] += v
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, o.res.Samples...)
		}
	}
	fuzzed := ""
	if worst == nil && broken == nil && *fuzzBinFlag != "" {
		var f *failure
		f, fuzzed, broken = p.guided(tmp)
		consider(f)
	}
	known, f := p.probe()
	consider(f)
	violations := 0
	if worst != nil {
		violations = 1
	}
	p.evidence(total, len(distinct), violations, fuzzed, known, time.Since(start))
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	switch {
	case worst != nil:
		path := p.writeReplay(*worst)
		fmt.Printf("FAILURE property=%s: %s\n", p.ID, worst.Failure)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.RemoveAll(tmp)
		os.Exit(1)
	case broken != nil:
		fmt.Printf("HARNESS-ERROR: %v\n", broken)
		os.RemoveAll(tmp)
		os.Exit(2)
	}
	fmt.Printf("property=%s held on %d cases (%d non-trivial, %d distinct) in %v\n",
		p.ID, total.Evaluations, total.Nontrivial, len(distinct), time.Since(start).Round(time.Millisecond))
}

// probe runs the cases that known findings are about. The known findings file
// has lines "KNOWN-FINDING: property=<id> key=<key> <what fails>".
func (p Prop[C]) probe() (known []string, f *failure) {
	listed := map[string]string{}
	if b, err := os.ReadFile(*knownFlag); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l, ok := strings.CutPrefix(strings.TrimSpace(l), "KNOWN-FINDING: property="+p.ID+" key=")
			if k, what, has := strings.Cut(l, " "); ok && has {
				listed[k] = what
			}
		}
	}
	for _, pr := range p.Probes {
		err := safely(func() error { return p.Run(pr.Case, new(Info)) })
		if err == nil {
			continue
		}
		if what, ok := listed[pr.Key]; ok {
			known = append(known, what)
		} else if f == nil {
			f = p.fail(pr.Case, err.Error())
		}
	}
	return known, f
}

func (p Prop[C]) writeReplay(f failure) string {
	h := fnv.New32a()
	h.Write(f.Case)
	_ = os.MkdirAll(*replayDir, 0o755)
	path := filepath.Join(*replayDir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
	writeJSON(path, f)
	return path
}

func (p Prop[C]) evidence(r shardResult, distinct, violations int, fuzzed string, known []string, d time.Duration) {
	if *evidenceFlag == "" {
		return
	}
	var classes []string
	for k := range r.Classes {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	samples := []any{}
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     *tierFlag,
		"seed":     *seedFlag,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         r.Evaluations,
			"nontrivial":          r.Nontrivial,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             r.Classes,
			"fixed_cases":         len(p.Fixed),
			"stopped_by_time":     r.Exhausted,
			"coverage_guided":     fuzzed,
			"known_findings":      known,
		},
		"wall_s":      d.Seconds(),
		"violations":  violations,
		"assumptions": append([]string{}, p.Assumptions...),
	}
	writeJSON(*evidenceFlag, ev)
}
