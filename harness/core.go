package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/awcullen/opcua/ua"
)

// Ctx is what a monitor reports to. It is safe for concurrent use.
type Ctx struct {
	ID, Tier string
	Seed     int64
	Dir      string // scratch directory, removed by the parent

	mu           sync.Mutex
	evals        int64
	distinct     map[uint64]struct{}
	counts       map[string]int64
	samples      []any
	sampleKinds  map[string]int
	violations   []Violation
	findings     []Violation
	incon        []string
	rule         string
	assumptions  []string
	known        []Known
	maxViolation int
}

// Violation is a refuting observation.
type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// Known is an accepted finding: violations whose key matches are reported as KNOWN-FINDING.
type Known struct {
	Property string
	Key      *regexp.Regexp
	Text     string
}

type check struct {
	run  func(c *Ctx)
	rule string
	race bool
	// minEvals / minDistinct: fewer observations than this make the run inconclusive.
	minEvals, minDistinct int
	assumptions           []string
}

var checks = map[string]*check{}

func register(id string, ch *check) { checks[id] = ch }

// Thorough tells whether the thorough tier is running.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng returns a generator determined by the seed and a label.
func (c *Ctx) Rng(label string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", c.Seed, c.ID, label)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Violate records a violation of the property. key identifies the failing input/site/history class.
func (c *Ctx) Violate(key, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	v := Violation{key, d}
	for _, k := range c.known {
		if k.Property == c.ID && k.Key.MatchString(key) {
			for _, f := range c.findings {
				if f.Key == key {
					return
				}
			}
			c.findings = append(c.findings, v)
			return
		}
	}
	n := 0
	for _, o := range c.violations {
		if o.Key == key {
			n++
		}
	}
	if n >= 3 || len(c.violations) > 60 {
		return
	}
	c.violations = append(c.violations, v)
	fmt.Fprintf(os.Stderr, "violation[%s] %s\n", key, d)
	c.flushLocked()
}

// Violated tells whether anything was violated so far.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) > 0
}

// Inconclusive marks the run as unable to decide.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(format, a...)
	c.incon = append(c.incon, s)
	fmt.Fprintln(os.Stderr, "inconclusive:", s)
	c.flushLocked()
}

// Eval counts one evaluated case; sig distinguishes non-trivial cases ("" = trivial).
func (c *Ctx) Eval(sig string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if sig != "" {
		h := fnv.New64a()
		h.Write([]byte(sig))
		c.distinct[h.Sum64()] = struct{}{}
	}
}

// Count adds to a named observation counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Sample keeps up to three samples per kind.
func (c *Ctx) Sample(kind string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleKinds[kind] >= 2 || len(c.samples) >= 24 {
		return
	}
	c.sampleKinds[kind]++
	c.samples = append(c.samples, map[string]any{"kind": kind, "case": v})
}

type result struct {
	Done        bool             `json:"done"`
	Evals       int64            `json:"evals"`
	Distinct    int              `json:"distinct"`
	Counts      map[string]int64 `json:"counts"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Findings    []Violation      `json:"findings"`
	Incon       []string         `json:"incon"`
	Assumptions []string         `json:"assumptions"`
}

func (c *Ctx) flushLocked() { c.writeResult(false) }

func (c *Ctx) writeResult(done bool) {
	r := result{done, c.evals, len(c.distinct), c.counts, c.samples, c.violations, c.findings, c.incon, c.assumptions}
	b, err := json.Marshal(r)
	if err != nil {
		r.Samples = []any{fmt.Sprintf("%v", c.samples)}
		b, _ = json.Marshal(r)
	}
	tmp := filepath.Join(c.Dir, "result.json.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(c.Dir, "result.json"))
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func seed() int64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	return 1
}

func loadKnown() (ks []Known, raw []string) {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil, nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			ks = append(ks, Known{m[1], regexp.MustCompile("^(?:" + m[2] + ")$"), m[3]})
		}
	}
	return
}

func workerMain(id, tier, dir string) {
	ch := checks[id]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	debug.SetTraceback("all")
	c := &Ctx{ID: id, Tier: tier, Seed: seed(), Dir: dir, distinct: map[uint64]struct{}{}, counts: map[string]int64{}, sampleKinds: map[string]int{}}
	c.known, _ = loadKnown()
	c.assumptions = ch.assumptions
	theCtx = c
	ch.run(c)
	c.mu.Lock()
	c.writeResult(true)
	c.mu.Unlock()
	os.Exit(0)
}

// parentMain runs the worker, classifies its ending, writes evidence and prints the verdict.
func parentMain(id, tier string) int {
	ch := checks[id]
	if ch == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	logPath := filepath.Join(dir, "worker.log")
	lf, _ := os.Create(logPath)
	cmd := exec.Command(os.Args[0], "worker", id, tier, dir)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	env := os.Environ()
	if ch.race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	}
	cmd.Env = env
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	lf.Close()
	logb, _ := os.ReadFile(logPath)
	var r result
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		json.Unmarshal(b, &r)
	}
	known, _ := loadKnown()
	code := 0
	var harnessErr string
	if timedOut {
		harnessErr = "worker exceeded its wall-clock limit (inconclusive)"
	} else if !r.Done {
		where, kind := classifyCrash(string(logb))
		switch kind {
		case "repo":
			v := Violation{"crash:" + where, "process terminated by a panic or fatal error in " + where}
			matched := false
			for _, k := range known {
				if k.Property == id && k.Key.MatchString(v.Key) {
					matched = true
				}
			}
			if !matched {
				r.Violations = append(r.Violations, v)
			} else {
				harnessErr = "worker ended early on a known finding"
			}
		default:
			harnessErr = fmt.Sprintf("worker ended abnormally: %v (%s %s)", werr, kind, where)
		}
	}
	for _, f := range r.Findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.Key, f.Detail)
	}
	wall := time.Since(start).Seconds()
	if len(r.Violations) > 0 {
		code = 1
		rdir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, id+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s tier %s seed %d\nreplay: VERIF_SEED=%d bash check.sh %s %s\n\n", id, tier, seed(), seed(), id, tier)
		for _, v := range r.Violations {
			fmt.Fprintf(&b, "[%s]\n%s\n\n", v.Key, v.Detail)
		}
		fmt.Fprintf(&b, "---- worker log (tail) ----\n%s\n", tail(string(logb), 20000))
		os.WriteFile(rp, b.Bytes(), 0o644)
		for _, v := range r.Violations {
			fmt.Printf("violation [%s] %s\n", v.Key, firstLines(v.Detail, 12))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else if harnessErr != "" || len(r.Incon) > 0 {
		code = 2
		fmt.Println("INCONCLUSIVE", id, harnessErr, strings.Join(r.Incon, "; "))
		fmt.Println(tail(string(logb), 6000))
	} else if r.Evals < int64(ch.minEvals) || r.Distinct < ch.minDistinct {
		code = 2
		fmt.Printf("INCONCLUSIVE %s: observed too little (%d evaluations, %d distinct)\n", id, r.Evals, r.Distinct)
	}
	cov := map[string]any{"evaluations": r.Evals, "distinct_nontrivial": r.Distinct, "rule": ch.rule, "samples": r.Samples}
	if len(r.Samples) == 0 {
		cov["samples"] = []any{}
	}
	var names []string
	for k := range r.Counts {
		names = append(names, k)
	}
	sort.Strings(names)
	obs := map[string]int64{}
	for _, k := range names {
		obs[k] = r.Counts[k]
	}
	cov["observed"] = obs
	ev := map[string]any{"property": id, "tier": tier, "seed": seed(), "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": len(r.Violations), "assumptions": append([]string{"verdict covers the executions produced by this seed only"}, r.Assumptions...)}
	if len(r.Findings) > 0 {
		ev["known_findings"] = r.Findings
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s seed=%d evaluations=%d distinct=%d violations=%d exit=%d wall=%.1fs\n", id, tier, seed(), r.Evals, r.Distinct, len(r.Violations), code, wall)
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

var frameRe = regexp.MustCompile(`(?m)^(github\.com/awcullen/opcua/[^\s(]+(?:\([^)]*\))?[^\s(]*|main\.[^\s(]+(?:\([^)]*\))?[^\s(]*|verifharness/[^\s(]+(?:\([^)]*\))?[^\s(]*)`)

// classifyCrash finds which code the crashing goroutine was in: the library's or the harness's.
func classifyCrash(log string) (where, kind string) {
	i := strings.Index(log, "\npanic: ")
	if strings.HasPrefix(log, "panic: ") {
		i = 0
	}
	if i < 0 {
		i = strings.Index(log, "fatal error: ")
		if i < 0 {
			return "", "no panic in log"
		}
	}
	rest := log[i:]
	// the first goroutine block printed is the crashing one; skip "[recovered]" texts
	m := frameRe.FindString(rest)
	if m == "" {
		return "", "panic without frames"
	}
	if i := strings.LastIndex(m, "("); i > 0 && !strings.HasSuffix(m[:i], ".") {
		m = m[:i]
	}
	if strings.HasPrefix(m, "github.com/awcullen/opcua/") {
		return m, "repo"
	}
	return m, "harness"
}

var theCtx *Ctx

// errUnanswered: the server did not answer a valid request.
type errUnanswered string

func (e errUnanswered) Error() string { return string(e) }

// must: the operation is valid and has to succeed. A refusal by the code under test is a violation, anything else an error of the harness.
func must(err error) {
	if err == nil {
		return
	}
	if theCtx != nil {
		var un errUnanswered
		var sc ua.StatusCode
		_, file, line, _ := runtime.Caller(2)
		at := fmt.Sprintf("%s:%d", filepath.Base(file), line)
		switch {
		case errors.As(err, &un):
			theCtx.Violate("unanswered", "a valid request was not answered: %v (at %s)", err, at)
			os.Exit(3)
		case errors.As(err, &sc) && sc != ua.BadTimeout && sc != ua.BadConnectionClosed && sc != ua.BadConnectionRejected && sc != ua.BadCommunicationError && sc != ua.BadTCPInternalError:
			theCtx.Violate("refused", "a valid operation failed with %v (at %s)", sc, at)
			os.Exit(3)
		}
	}
	panic(err)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh run ID TIER")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parentMain(os.Args[2], os.Args[3]))
	case "worker":
		workerMain(os.Args[2], os.Args[3], os.Args[4])
	case "list":
		var ids []string
		for k, c := range checks {
			if c.race {
				k += " race"
			}
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		if f, ok := subcommands[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

var subcommands = map[string]func(args []string){}
