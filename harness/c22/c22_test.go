// Package c22 decides: the precision tool measures and leaves behind what it says.
package c22

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C22") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Case is one call of the tool. A number of 0 leaves the flag out.
type Case struct {
	Items   int    `json:"items"`
	Length  int    `json:"length"`
	Prec    int    `json:"prec"`
	Keep    bool   `json:"keep"`
	ToFile  bool   `json:"file"`
	Verbose bool   `json:"verbose"`
	GCMem   bool   `json:"gcmem"`
	Profile string `json:"profile"` // "", cpu, mem, both
	Before  string `json:"before"`  // what test.ann and results.txt hold before: "", junk
	Style   int    `json:"style"`   // of the flags
}

var _ = core.Sub("tool", core.Spec[Case]{
	Quick: 960, Thorough: 24000,
	Rule: "the precision tool, built from the tree, run in a scratch directory with drawn numbers of items (1 to 3000), dimension (1 to 64), queries and " +
		"switches: its exit status, its output, the files left; the reported precision is computed anew from the index it kept; non-trivial: the index is kept, " +
		"there are more than ten items and some precision is neither 0 nor 1",
	Gen: func(t *rapid.T) Case {
		c := Case{Prec: rapid.IntRange(1, 12).Draw(t, "prec"), Style: rapid.IntRange(0, 3).Draw(t, "style")}
		switch rapid.IntRange(0, 7).Draw(t, "itemkind") {
		case 0:
			c.Items = rapid.SampledFrom([]int{1, 2, 9, 10, 11, 99, 100, 101, 499, 500, 501, 999, 1000, 1001}).Draw(t, "items")
		case 1:
			c.Items = rapid.IntRange(1, 12).Draw(t, "items")
		case 2:
			c.Items = rapid.IntRange(500, 3000).Draw(t, "items")
		default:
			c.Items = rapid.IntRange(1, 400).Draw(t, "items")
		}
		switch rapid.IntRange(0, 5).Draw(t, "lengthkind") {
		case 0:
			c.Length = rapid.IntRange(1, 3).Draw(t, "length")
		case 1:
			c.Length = rapid.IntRange(16, 64).Draw(t, "length")
		default:
			c.Length = rapid.IntRange(2, 16).Draw(t, "length")
		}
		if c.Items > 400 && c.Length > 24 {
			c.Length = 24
		}
		if rapid.IntRange(0, 30).Draw(t, "defaults") == 0 {
			switch rapid.IntRange(0, 2).Draw(t, "default") {
			case 0:
				c.Items = 0
			case 1:
				c.Length = 0
				c.Items = min(c.Items, 200)
			default:
				c.Prec = 0
				c.Items = min(c.Items, 100)
			}
		}
		c.Keep = rapid.IntRange(0, 4).Draw(t, "keep") > 0
		c.ToFile = rapid.IntRange(0, 2).Draw(t, "file") == 0
		c.Verbose = rapid.IntRange(0, 7).Draw(t, "verbose") == 0 && c.Items > 0 && c.Items <= 60 && c.Length > 0 && c.Length <= 8
		c.GCMem = rapid.Bool().Draw(t, "gcmem")
		if rapid.IntRange(0, 11).Draw(t, "profile") == 0 {
			c.Profile = rapid.SampledFrom([]string{"cpu", "mem", "both"}).Draw(t, "which")
		}
		c.Before = rapid.SampledFrom([]string{"", "", "junk"}).Draw(t, "before")
		return c
	},
	Run: run,
})

func (c Case) args() []string {
	var a []string
	dash := "-"
	if c.Style&1 != 0 {
		dash = "--"
	}
	num := func(name string, n int) {
		switch {
		case n == 0:
		case c.Style&2 != 0:
			a = append(a, fmt.Sprintf("%s%s=%d", dash, name, n))
		default:
			a = append(a, dash+name, strconv.Itoa(n))
		}
	}
	flag := func(name string, b bool) {
		if b {
			a = append(a, dash+name)
		}
	}
	num("items", c.Items)
	flag("keep", c.Keep)
	flag("verbose", c.Verbose)
	num("length", c.Length)
	flag("file", c.ToFile)
	flag("cpu-profile", c.Profile == "cpu" || c.Profile == "both")
	num("prec", c.Prec)
	flag("mem-profile", c.Profile == "mem" || c.Profile == "both")
	flag("use-memory-index-allocator", c.GCMem)
	return a
}

var (
	limitLine = regexp.MustCompile(`(?m)^limit = (\d+), precision = (\S+), time = (\S+) (us|ms), recall = (-?\d+) times/s$`)
	queryLine = regexp.MustCompile(`(?m)^finding nbs for (\d+)$`)
)

func or(n, d int) int {
	if n == 0 {
		return d
	}
	return n
}

func run(c *core.Ctx, cs Case) error {
	tool := os.Getenv("VH_TOOL")
	if tool == "" {
		core.Infra("no tool")
	}
	items, length, prec := or(cs.Items, 1000), or(cs.Length, 40), or(cs.Prec, 1000)
	dir, tmp := c.File("dir"), c.File("tmp")
	for _, d := range []string{dir, tmp} {
		if err := os.Mkdir(d, 0o755); err != nil {
			core.Must(err)
		}
	}
	before := map[string]string{"other.ann": "other", "test.ann.bak": "backup", "results.txt.1": "old"}
	if cs.Before == "junk" {
		before["test.ann"] = strings.Repeat("junk", 30000)
		before["results.txt"] = strings.Repeat("old results\n", 30000)
	}
	for name, text := range before {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			core.Must(err)
		}
	}
	timeout, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(timeout, tool, cs.args()...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GOMEMLIMIT=off", "GOMAXPROCS=4")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	start := time.Now()
	err := cmd.Run()
	took := time.Since(start)
	if timeout.Err() != nil {
		return fmt.Errorf("%v does not end", cs.args())
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		core.Must(err)
	}
	code := cmd.ProcessState.ExitCode()
	left := map[string]string{}
	names, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range names {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return err
		}
		left[e.Name()] = string(b)
	}
	want := map[string]bool{}
	for name := range before {
		want[name] = true
	}

	if cs.Profile == "both" {
		if code != 1 {
			return fmt.Errorf("%v ends with status %d\n%s", cs.args(), code, short(stderr.String()))
		}
		for name, text := range before {
			if left[name] != text {
				return fmt.Errorf("%v was refused, but changed %s", cs.args(), name)
			}
		}
		if len(left) != len(before) {
			return fmt.Errorf("%v was refused, but made files: %s", cs.args(), keys(left))
		}
		c.Class("refused")
		return nil
	}
	if code != 0 {
		return fmt.Errorf("%v ends with status %d\n%s", cs.args(), code, short(stderr.String()))
	}

	// the files
	delete(want, "test.ann")
	if cs.Keep {
		want["test.ann"] = true
	}
	if cs.ToFile {
		want["results.txt"] = true
	}
	for name := range want {
		if _, ok := left[name]; !ok {
			return fmt.Errorf("%v leaves no %s", cs.args(), name)
		}
	}
	for name, text := range left {
		if !want[name] {
			return fmt.Errorf("%v leaves %s behind", cs.args(), name)
		}
		mine := name == "test.ann" || name == "results.txt" && cs.ToFile
		if old, ok := before[name]; ok && !mine && text != old {
			return fmt.Errorf("%v changes %s", cs.args(), name)
		}
	}
	if cs.Profile != "" {
		found, _ := filepath.Glob(filepath.Join(tmp, "*", cs.Profile+".pprof"))
		if len(found) != 1 {
			return fmt.Errorf("%v leaves %d profiles", cs.args(), len(found))
		}
		if st, err := os.Stat(found[0]); err != nil || st.Size() == 0 {
			return fmt.Errorf("%v leaves an empty profile", cs.args())
		}
	}

	// the report
	report := stdout.String()
	if cs.ToFile {
		report = left["results.txt"]
		if !cs.Verbose && (limitLine.MatchString(stdout.String()) || queryLine.MatchString(stdout.String())) {
			return fmt.Errorf("%v prints the report, too: %s", cs.args(), short(stdout.String()))
		}
		if strings.Contains(report, "old results") {
			return fmt.Errorf("%v keeps old results", cs.args())
		}
	}
	var queries []int
	for _, m := range queryLine.FindAllStringSubmatch(report, -1) {
		q, err := strconv.Atoi(m[1])
		if err != nil || q < 0 || q >= items {
			return fmt.Errorf("%v: queries item %s of %d", cs.args(), m[1], items)
		}
		queries = append(queries, q)
	}
	if len(queries) != prec {
		return fmt.Errorf("%v: %d queries, not %d", cs.args(), len(queries), prec)
	}
	if prec == 1000 && items >= 100 {
		distinct := map[int]bool{}
		for _, q := range queries {
			distinct[q] = true
		}
		if len(distinct) < 50 {
			return fmt.Errorf("%v: only %d different items are queried", cs.args(), len(distinct))
		}
	}
	limits := []int{}
	for i := 1; i <= items; i *= 10 {
		limits = append(limits, i)
		if i == 100 {
			limits = append(limits, 500)
		}
	}
	lines := limitLine.FindAllStringSubmatch(report, -1)
	if len(lines) != len(limits) {
		return fmt.Errorf("%v: results for %d limits, not for %v\n%s", cs.args(), len(lines), limits, short(report))
	}
	got := make([]float64, len(limits))
	spent := 0.0 // microseconds per query
	for i, m := range lines {
		if m[1] != strconv.Itoa(limits[i]) {
			return fmt.Errorf("%v: result %d is for limit %s, not %d", cs.args(), i, m[1], limits[i])
		}
		p, err := strconv.ParseFloat(m[2], 64)
		most := float64(min(limits[i], items, 10)) / 10
		if err != nil || !(p >= 0 && p <= most+1e-6) {
			return fmt.Errorf("%v: the precision of limit %d is %s, the most there can be is %g", cs.args(), limits[i], m[2], most)
		}
		d, err := strconv.ParseFloat(m[3], 64)
		if err != nil || !(d >= 0) {
			return fmt.Errorf("%v: the time of limit %d is %s", cs.args(), limits[i], m[3])
		}
		unit := 1.0
		if m[4] == "ms" {
			unit = 1000
		}
		// a search for a hundred items cannot be done within a microsecond
		if limits[i] >= 100 && d*unit < 1 {
			return fmt.Errorf("%v: the time of limit %d is %s %s", cs.args(), limits[i], m[3], m[4])
		}
		if rate, err := strconv.ParseFloat(m[5], 64); err != nil || d > 0 && math.Abs(rate-1e6/(d*unit)) > 2+1e6/(d*unit)*1e-3/min(1, d) {
			return fmt.Errorf("%v: %s searches a second at %s %s each", cs.args(), m[5], m[3], m[4])
		}
		spent += d * unit
		got[i] = p
	}
	if all := spent * float64(prec); all > float64(took.Microseconds())+1000 {
		return fmt.Errorf("%v: %d queries of %g us in all would take %g us, the tool took %d us", cs.args(), prec, spent, all, took.Microseconds())
	}
	c.ClassIf(cs.ToFile, "report in a file")
	c.ClassIf(cs.Verbose, "verbose")
	c.ClassIf(cs.GCMem, "index read into memory")
	c.ClassIf(cs.Profile != "", "profile")
	c.ClassIf(items < 10, "fewer than ten items")
	c.ClassIf(items >= 100, "a hundred items and more")
	if !cs.Keep {
		c.Class("index removed")
		return nil
	}

	// the index
	cfg := core.Config{Metric: "angular", Dim: length, Builder: true}
	file := filepath.Join(dir, "test.ann")
	f, err := core.ReadForest(file, cfg.Layout())
	if err != nil {
		return fmt.Errorf("%v: the index kept: %w", cs.args(), err)
	}
	if int(f.NItems) != items || f.Trees != 2*length {
		return fmt.Errorf("%v: the index kept has %d items and %d trees, not %d and %d", cs.args(), f.NItems, f.Trees, items, 2*length)
	}
	model := core.Model{}
	for i := 0; i < items; i++ {
		model[uint64(i)] = f.Vec(uint64(i))
	}
	if err := f.Check(model); err != nil {
		return fmt.Errorf("%v: the index kept: %w", cs.args(), err)
	}
	if err := spread(model, length); err != nil {
		return fmt.Errorf("%v: %w", cs.args(), err)
	}
	ix := core.Open(cfg, nil)
	c.Cleanup(func() { ix.Close() })
	if err := ix.Load(file); err != nil {
		return fmt.Errorf("%v: loading the index kept: %w", cs.args(), err)
	}
	sum := make([]float64, len(limits))
	for _, q := range queries {
		closest, _ := ix.ByItem(uint64(q), 10, items, ix.Ctx())
		for i, l := range limits {
			top, _ := ix.ByItem(uint64(q), l, -1, ix.Ctx())
			in := map[uint64]bool{}
			for _, id := range top {
				in[id] = true
			}
			for _, id := range closest {
				if in[id] {
					sum[i]++
				}
			}
		}
	}
	for i, l := range limits {
		want := sum[i] / 10 / float64(prec)
		if math.Abs(got[i]-want) > 1e-6 {
			return fmt.Errorf("%v: the precision of limit %d is %f, from the index kept %f", cs.args(), l, got[i], want)
		}
		if items > 10 && want > 0 && want < 1 && l >= 10 {
			c.NonTrivial()
		}
	}
	return nil
}

// spread: random vectors are not all alike.
func spread(m core.Model, length int) error {
	var sum, sq float64
	n := float64(len(m) * length)
	for _, v := range m {
		for _, x := range v {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return fmt.Errorf("a vector holds %v", x)
			}
			sum += x
			sq += x * x
		}
	}
	if n < 500 {
		return nil
	}
	if mean, dev := sum/n, sq/n; math.Abs(mean) > 0.5 || dev < 0.3 || dev > 3 {
		return fmt.Errorf("the vectors are not normally distributed: mean %g, mean square %g", mean, dev)
	}
	return nil
}

func keys(m map[string]string) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}
