package c07

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"verifharness/core"
)

// Killed is a save by a process of its own that ends in the middle of it.
type Killed struct {
	Config core.Config `json:"config"`
	Data   core.Data   `json:"data"`
	Trees  int         `json:"trees"`
	Before string      `json:"before"` // what the target is: missing, index, larger, loaded (by the process that saves), link
	How    string      `json:"how"`    // size, time
	Part   int         `json:"part"`   // per cent of the bytes, or of the time a save takes
}

// order is what the process is told.
type order struct {
	Killed
	Target string `json:"target"`
	Limit  int64  `json:"limit"` // bytes or nanoseconds
}

const orderVar = "VH_C07_ORDER"

// obey is the life of the process that is killed.
func obey(raw string) int {
	var o order
	core.Must(json.Unmarshal([]byte(raw), &o))
	ix := o.prepare(o.Target)
	if o.How == "size" {
		// the default action, whatever was inherited: the kernel ends the process at the byte
		var act [4]uintptr
		if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&act)), 0, 8, 0, 0); e != 0 {
			core.Must(e)
		}
		core.Must(syscall.Setrlimit(1, &syscall.Rlimit{Cur: uint64(o.Limit), Max: uint64(o.Limit)}))
	}
	// the file system is busy only from here
	start := make(chan struct{})
	if o.How == "time" {
		go func() {
			runtime.LockOSThread()
			close(start)
			for t := time.Now(); time.Since(t) < time.Duration(o.Limit); {
			}
			syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		}()
		<-start
	}
	if err := ix.Save(o.Target); err != nil {
		return 7
	}
	return 0
}

// prepare makes the index to be saved.
func (k Killed) prepare(target string) core.Index {
	ix := core.Open(k.Config, nil)
	if k.Before == "loaded" {
		core.Must(ix.Load(target))
		return ix
	}
	for _, it := range k.Data.Items(k.Config) {
		ix.Add(it.ID, it.V)
	}
	ix.Build(k.Trees, 1)
	return ix
}

var _ = core.Sub("killed", core.Spec[Killed]{
	Quick: 640, Thorough: 20000,
	Rule: "a process saves an index over a missing file, over another index (smaller or larger), over the file it is loaded from or through a symbolic link and is " +
		"killed, at a byte of the file or at a moment of the save: the target is as it was or as it is when all was written, and can be saved to again; " +
		"non-trivial: the process was killed before Save returned",
	Gen: func(t *rapid.T) Killed {
		k := Killed{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular", "angular", "dot"}, MaxDim: 40, Builder: true, GCMem: true})}
		k.Data = core.Data{
			Kind: "gauss", Seed: rapid.Uint64Max(1<<32).Draw(t, "dataseed"), IDs: "dense",
			N: rapid.SampledFrom([]int{1, 3, 40, 300, 300, 3000, 20000}).Draw(t, "n"),
		}
		if k.Data.N > 100 {
			k.Config.Dim = min(k.Config.Dim, 12)
		}
		k.Trees = rapid.IntRange(1, 2).Draw(t, "trees")
		k.Before = rapid.SampledFrom([]string{"missing", "index", "index", "larger", "loaded", "loaded", "link"}).Draw(t, "before")
		k.How = rapid.SampledFrom([]string{"size", "time", "time"}).Draw(t, "how")
		k.Part = rapid.IntRange(0, 120).Draw(t, "part")
		return k
	},
	Run: runKilled,
})

func runKilled(c *core.Ctx, k Killed) error {
	target := c.File("t.ann")
	other := c.File("other.ann")
	old := core.Open(k.Config, nil)
	c.Cleanup(func() { old.Close() })
	od := core.Data{Kind: "gauss", Seed: k.Data.Seed + 1, N: 30, IDs: "dense"}
	if k.Before == "larger" || k.Before == "loaded" {
		od.N = k.Data.N*3 + 1
	}
	for _, it := range od.Items(k.Config) {
		old.Add(it.ID, it.V)
	}
	old.Build(k.Trees, 1)
	if err := old.Save(other); err != nil {
		return fmt.Errorf("save: %w", err)
	}
	before, err := os.ReadFile(other)
	core.Must(err)
	switch k.Before {
	case "missing":
	case "link":
		core.Must(os.WriteFile(c.File("real.ann"), before, 0o644))
		core.Must(os.Symlink("real.ann", target))
	default:
		core.Must(os.WriteFile(target, before, 0o644))
	}

	// the file it would write, and how long that takes
	full := before
	start := time.Now()
	if k.Before != "loaded" {
		ix := k.prepare("")
		c.Cleanup(func() { ix.Close() })
		start = time.Now()
		if err := ix.Save(c.File("full.ann")); err != nil {
			return fmt.Errorf("save: %w", err)
		}
		full, err = os.ReadFile(c.File("full.ann"))
		core.Must(err)
	} else {
		core.Must(os.WriteFile(c.File("full.ann"), before, 0o644))
	}
	took := time.Since(start)
	if k.Before == "loaded" {
		took += 200 * time.Microsecond
	}

	o := order{Killed: k, Target: target}
	if k.How == "size" {
		o.Limit = int64(len(full)) * int64(k.Part) / 100
	} else {
		o.Limit = int64(took) * int64(k.Part) / 100
	}
	raw, err := json.Marshal(o)
	core.Must(err)
	cmd := exec.Command(os.Args[0], "-test.run=^$")
	cmd.Env = append(os.Environ(), orderVar+"="+string(raw))
	cmd.Dir = c.Dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	how := "it ended by itself"
	switch {
	case err == nil:
	case cmd.ProcessState == nil:
		core.Infra("the process that saves cannot be started: %v", err)
	case cmd.ProcessState.ExitCode() == 7:
		how = "Save gave an error"
		c.Class("save failed")
	default:
		how = fmt.Sprintf("it was killed (%v)", err)
		c.NonTrivial()
		c.Class("killed, %s, %s", k.How, k.Before)
		if st, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); !ok || !st.Signaled() || st.Signal() != syscall.SIGKILL && st.Signal() != syscall.SIGXFSZ {
			return fmt.Errorf("the process that saves crashed: %v\n%s", err, tail(out.String()))
		}
	}

	got, err := os.ReadFile(target)
	switch {
	case os.IsNotExist(err) && k.Before == "missing" && how != "it ended by itself":
		c.Class("target as before")
	case err != nil:
		return fmt.Errorf("%s: the target cannot be read: %w", how, err)
	case bytes.Equal(got, full):
		c.Class("target complete")
	case how != "it ended by itself" && k.Before != "missing" && bytes.Equal(got, before):
		c.Class("target as before")
	default:
		return fmt.Errorf("%s: the target has %d bytes, neither the %d of before nor the %d of the index saved", how, len(got), len(before), len(full))
	}
	if b, err := os.ReadFile(other); err != nil || !bytes.Equal(b, before) {
		return fmt.Errorf("%s: another file changed (%v)", how, err)
	}
	// and the next save finds nothing in its way
	if err := old.Save(target); err != nil {
		return fmt.Errorf("%s: the next save: %w", how, err)
	}
	if b, err := os.ReadFile(target); err != nil || !bytes.Equal(b, before) {
		return fmt.Errorf("%s: the next save left %d bytes, expected %d (%v)", how, len(b), len(before), err)
	}
	return nil
}

func tail(s string) string { return s[:min(len(s), 3000)] }
