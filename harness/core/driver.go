// Package core holds what all property checks share: the driver protocol, the
// type-erased index adapter, generators, the reference models and the monitors.
package core

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------
// Protocol with check.py (all through environment variables):
//
//	VH_TIER    quick | thorough
//	VH_SEED    base seed of the run (from VERIF_SEED)
//	VH_SHARD   shard number, VH_SHARDS number of shards
//	VH_OUT     directory for result.json, fail.json, journal.json of this process
//	VH_TMP     scratch directory for files of cases
//	VH_RACE    1 when built with -race
//	VH_REPLAY  replay file: only that case is run
//	VH_CORPUS  directory of saved cases that are run first (shard 0)
// ---------------------------------------------------------------------------------

// Ctx is handed to the run function of a case.
type Ctx struct {
	Dir        string // scratch directory, emptied before every case
	Tier       string
	Replay     bool
	nontrivial bool
	classes    []string
	cleanups   []func()
}

// NonTrivial marks the case as non-trivial by the rule of its Spec.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Class counts the case in a class.
func (c *Ctx) Class(format string, a ...any) {
	c.classes = append(c.classes, fmt.Sprintf(format, a...))
}

// ClassIf counts the case in a class when the condition holds.
func (c *Ctx) ClassIf(b bool, name string) {
	if b {
		c.classes = append(c.classes, name)
	}
}

// Cleanup is run when the case is over, also when it panicked.
func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// File gives a path in the scratch directory.
func (c *Ctx) File(name string) string { return filepath.Join(c.Dir, name) }

// Spec describes one generated check.
type Spec[C any] struct {
	Gen func(t *rapid.T) C
	Run func(c *Ctx, cs C) error
	// Cases over all shards, per tier.
	Quick, Thorough int
	// Race: the sub check belongs in the binary built with the race detector.
	Race bool
	// OneShard: run in shard 0 only (heavy cases).
	OneShard bool
	Rule     string
}

type sub struct {
	name     string
	race     bool
	oneShard bool
	rule     string
	cases    func(tier string) int
	gen      func(t *rapid.T) any
	run      func(c *Ctx, cs any) error
	decode   func(raw []byte) (any, error)
}

var subs []*sub

// Sub registers a sub check; call from init or a package variable.
func Sub[C any](name string, s Spec[C]) bool {
	subs = append(subs, &sub{
		name: name, race: s.Race, oneShard: s.OneShard, rule: s.Rule,
		cases: func(tier string) int {
			if tier == "thorough" {
				return s.Thorough
			}
			return s.Quick
		},
		gen: func(t *rapid.T) any { return s.Gen(t) },
		run: func(c *Ctx, cs any) error { return s.Run(c, cs.(C)) },
		decode: func(raw []byte) (any, error) {
			var v C
			err := json.Unmarshal(raw, &v)
			return v, err
		},
	})
	return true
}

// Saved is the format of replay, corpus and journal files.
type Saved struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Race     bool            `json:"race"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
	Note     string          `json:"note,omitempty"`
}

type subResult struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	WallS       float64        `json:"wall_s"`
}

var (
	property string
	outDir   = os.Getenv("VH_OUT")
	tmpDir   = os.Getenv("VH_TMP")
	tier     = os.Getenv("VH_TIER")
	isRace   = os.Getenv("VH_RACE") == "1"
	shard    = envInt("VH_SHARD", 0)
	shards   = envInt("VH_SHARDS", 1)
	baseSeed = uint64(envInt("VH_SEED", 1))
	results  = map[string]*subResult{}
	lastFail *Saved
	infra    error
)

// Tier of this run.
func Tier() string { return tier }

// IsRace reports whether this is the binary with the race detector.
func IsRace() bool { return isRace }

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// InfraError is an error of the check itself, never a violation.
type InfraError struct{ err error }

func (e InfraError) Error() string { return "infrastructure: " + e.err.Error() }

// Infra aborts the run with an error of the check itself.
func Infra(format string, a ...any) {
	panic(InfraError{fmt.Errorf(format, a...)})
}

// Must aborts the run with an error of the check itself when err is not nil.
func Must(err error) {
	if err != nil {
		Infra("%w", err)
	}
}

// Main is called by TestMain.
func Main(m *testing.M, prop string) {
	property = prop
	flag.Parse()
	if outDir == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			panic(err)
		}
		outDir = d
		fmt.Println("output in", outDir)
	}
	if tmpDir == "" {
		tmpDir = filepath.Join(outDir, "tmp")
	}
	if tier == "" {
		tier = "quick"
	}
	os.MkdirAll(tmpDir, 0o755)
	os.Exit(m.Run())
}

func writeJSON(name string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(filepath.Join(outDir, name), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "write:", err)
		os.Exit(3)
	}
}

func seedFor(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", baseSeed, property, name, shard)
	s := h.Sum64() &^ (1 << 63)
	if s == 0 {
		s = 1
	}
	return s
}

// RunAll runs everything registered that belongs in this process.
func RunAll(t *testing.T) {
	startWatchdog()
	debug.SetTraceback("all")

	if f := os.Getenv("VH_REPLAY"); f != "" {
		replay(t, f)
		return
	}

	finish := func() {
		if infra != nil {
			writeJSON("infra.json", map[string]string{"error": infra.Error()})
			return
		}
		if lastFail != nil {
			writeJSON("fail.json", lastFail)
		}
		writeJSON("result.json", results)
	}
	// rapid.Check leaves by runtime.Goexit when it fails
	defer finish()

	only := os.Getenv("VH_ONLY")

	if dir := os.Getenv("VH_CORPUS"); dir != "" && shard == 0 {
		files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			s, sb, cs := load(f)
			if sb == nil || sb.race != isRace || (only != "" && only != sb.name) {
				continue
			}
			if err := execute(sb, cs, s.Case, false, "corpus"); err != nil {
				if infra == nil {
					lastFail = &Saved{Property: property, Sub: sb.name, Race: isRace, Case: s.Case, Error: err.Error(), Note: "corpus " + filepath.Base(f)}
				}
				t.Fatalf("corpus case %s: %v", f, err)
			}
		}
	}

	for _, s := range subs {
		if s.race != isRace || (s.oneShard && shard != 0) || (only != "" && only != s.name) {
			continue
		}
		n := s.cases(tier)
		if v := envInt("VH_CASES", 0); v > 0 {
			n = v
		}
		if !s.oneShard {
			n = (n + shards - 1) / shards
		}
		if n == 0 {
			continue
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(seedFor(s.name), 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "25s")

		start := time.Now()
		s := s
		rapid.Check(t, func(rt *rapid.T) {
			if infra != nil {
				rt.Fatalf("infra")
			}
			cs := s.gen(rt)
			raw, err := json.Marshal(cs)
			if err != nil {
				infra = err
				rt.Fatalf("marshal: %v", err)
			}
			if err := execute(s, cs, raw, true, "generated"); err != nil {
				if infra == nil {
					lastFail = &Saved{Property: property, Sub: s.name, Race: isRace, Case: raw, Error: err.Error()}
				}
				rt.Fatalf("%v", firstLine(err.Error()))
			}
		})
		if r := results[s.name]; r != nil {
			r.WallS = time.Since(start).Seconds()
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func load(f string) (*Saved, *sub, any) {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var s Saved
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Fprintln(os.Stderr, f, err)
		os.Exit(3)
	}
	for _, sb := range subs {
		if sb.name == s.Sub {
			cs, err := sb.decode(s.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, f, err)
				os.Exit(3)
			}
			return &s, sb, cs
		}
	}
	fmt.Fprintln(os.Stderr, f, "unknown sub check", s.Sub)
	os.Exit(3)
	return nil, nil, nil
}

func replay(t *testing.T, f string) {
	s, sb, cs := load(f)
	replaying = true
	err := execute(sb, cs, s.Case, false, "replay")
	if infra != nil {
		writeJSON("infra.json", map[string]string{"error": infra.Error()})
		t.Fatal(infra)
	}
	if err != nil {
		s.Error = err.Error()
		s.Property = property
		writeJSON("fail.json", s)
		t.Fatal(err)
	}
	writeJSON("result.json", results)
}

var replaying bool

var goroutineID = regexp.MustCompile(`(?m)^goroutine \d+`)

// execute runs one case, turning panics (memory faults included) into errors.
func execute(s *sub, cs any, raw []byte, count bool, origin string) (err error) {
	r := results[s.name]
	if r == nil {
		r = &subResult{Rule: s.rule, Classes: map[string]int{}}
		results[s.name] = r
	}

	b, _ := json.Marshal(Saved{Property: property, Sub: s.name, Race: isRace, Case: raw, Note: origin})
	if e := os.WriteFile(filepath.Join(outDir, "journal.json"), b, 0o644); e != nil {
		infra = e
		return e
	}

	c := &Ctx{Dir: filepath.Join(tmpDir, "case"), Tier: tier, Replay: replaying}
	os.RemoveAll(c.Dir)
	if e := os.MkdirAll(c.Dir, 0o755); e != nil {
		infra = e
		return e
	}

	beginCase(s.name, b)
	defer endCase()

	err = Guard(func() error { return s.run(c, cs) })

	for i := len(c.cleanups) - 1; i >= 0; i-- {
		if e := Guard(func() error { c.cleanups[i](); return nil }); e != nil && err == nil {
			err = fmt.Errorf("while cleaning up: %w", e)
		}
	}

	var ie InfraError
	if errors.As(err, &ie) {
		infra = ie
		return err
	}

	if err == nil {
		r.Evaluations++
		for _, cl := range c.classes {
			r.Classes[cl]++
		}
		if c.nontrivial {
			h := fnv.New64a()
			h.Write(raw)
			r.Hashes = append(r.Hashes, strconv.FormatUint(h.Sum64(), 36))
			n := len(r.Hashes)
			if len(raw) < 1500 && len(r.Samples) < 3 && (n == 3 || n == 20 || n == 100) {
				r.Samples = append(r.Samples, json.RawMessage(raw))
			}
		}
	}
	return err
}

// PanicError is what Guard makes of a panic.
type PanicError struct {
	Value any
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.Value, p.Stack) }

// Guard calls f, returning panics (memory faults included) as errors.
func Guard(f func() error) (err error) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if v := recover(); v != nil {
			if ie, ok := v.(InfraError); ok {
				err = ie
				return
			}
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			err = &PanicError{v, goroutineID.ReplaceAllString(string(buf), "goroutine N")}
		}
	}()
	return f()
}

// Panics reports whether f panics (a run time error such as a memory fault counts as well).
func Panics(f func()) (panicked bool, value any) {
	err := Guard(func() error { f(); return nil })
	if err == nil {
		return false, nil
	}
	var ie InfraError
	if errors.As(err, &ie) {
		panic(ie)
	}
	v := err.(*PanicError).Value
	if vi, ok := v.(Violation); ok {
		panic(vi)
	}
	return true, v
}

// ---------------------------------------------------------------------------------
// Watchdog: finds cases that never end. A deadlock is told by the states of all
// goroutines inside the library, an endless loop by CPU time used; elapsed time alone
// is never taken as a verdict.
// ---------------------------------------------------------------------------------

var (
	wdMu      sync.Mutex
	wdStart   time.Time
	wdCPU     time.Duration
	wdJournal []byte
	wdActive  atomic.Bool
	wdSeq     atomic.Int64
	// CPULimit is the CPU time a single case may use before it counts as not ending; normal
	// cases use milliseconds up to a few seconds.
	CPULimit = 90 * time.Second
	// MemLimit is the resident memory in bytes this process may use before the case running
	// counts as growing without end; normal cases use some ten megabytes.
	MemLimit = int64(2200 << 20)
)

func resident() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func beginCase(name string, journal []byte) {
	wdMu.Lock()
	wdStart, wdCPU, wdJournal = time.Now(), cpuTime(), journal
	wdMu.Unlock()
	wdSeq.Add(1)
	wdActive.Store(true)
}

func endCase() { wdActive.Store(false) }

func hang(kind, dump string) {
	var s Saved
	wdMu.Lock()
	json.Unmarshal(wdJournal, &s)
	wdMu.Unlock()
	s.Error = "does not terminate: " + kind + "\n" + dump
	s.Note = "hang"
	writeJSON("fail.json", s)
	fmt.Fprintln(os.Stderr, "HANG", kind)
	fmt.Fprintln(os.Stderr, dump)
	os.Exit(1)
}

func startWatchdog() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if !wdActive.Load() {
				continue
			}
			if n := resident(); n > MemLimit {
				buf := make([]byte, 64<<10)
				hang(fmt.Sprintf("%d MiB of memory in use", n>>20), string(buf[:runtime.Stack(buf, true)]))
			}
		}
	}()
	go func() {
		var blockedSeq int64 = -1
		var blockedDump string
		for {
			time.Sleep(5 * time.Second)
			if !wdActive.Load() {
				continue
			}
			wdMu.Lock()
			el, cpu := time.Since(wdStart), cpuTime()-wdCPU
			wdMu.Unlock()
			if cpu > CPULimit {
				buf := make([]byte, 64<<10)
				hang(fmt.Sprintf("%v of CPU time used by one case", cpu), string(buf[:runtime.Stack(buf, true)]))
			}
			if el < 20*time.Second {
				continue
			}
			buf := make([]byte, 1<<20)
			d := string(buf[:runtime.Stack(buf, true)])
			sig, blocked := deadlocked(d)
			if !blocked {
				blockedSeq = -1
				continue
			}
			if blockedSeq == wdSeq.Load() && blockedDump == sig {
				hang("deadlock, all goroutines in the library wait for each other", d)
			}
			blockedSeq, blockedDump = wdSeq.Load(), sig
		}
	}()
}

var stateRE = regexp.MustCompile(`^goroutine (\d+) (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]:`)

// deadlocked reports whether every goroutine with frames of the library is blocked on
// synchronization, with no goroutine of the case able to run.
func deadlocked(dump string) (string, bool) {
	var sig []string
	any := false
	for _, g := range strings.Split(dump, "\n\n") {
		m := stateRE.FindStringSubmatch(g)
		if m == nil || strings.Contains(g, "core.startWatchdog") {
			continue
		}
		state := m[2]
		if i := strings.IndexByte(state, ','); i >= 0 {
			state = state[:i]
		}
		lib := strings.Contains(g, "goannoy/")
		switch {
		case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"),
			strings.HasPrefix(state, "chan "), state == "select":
			if lib {
				any = true
			}
			sig = append(sig, m[1]+":"+state)
		default:
			// running, runnable, IO wait, syscall, sleep
			if strings.Contains(g, "testing.") && !lib && !strings.Contains(g, "verifharness") {
				continue
			}
			if lib || strings.Contains(g, "verifharness") {
				return "", false
			}
		}
	}
	return strings.Join(sig, " "), any
}
