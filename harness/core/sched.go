package core

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mariotoffia/goannoy/interfaces"
)

// Schedule says how the workers of a build are interleaved: plain data.
type Schedule struct {
	Kind string `json:"kind"` // random, pct, robin, starve
	Seed uint64 `json:"seed"`
	// Percent of the scheduling points at which another worker may go on (random), number of
	// points at which priorities change (pct), length of a slice (robin).
	P int `json:"p"`
	// WriterFirst: a waiting LockNodes keeps new LockSharedNodes out, as sync.RWMutex does.
	WriterFirst bool `json:"writerfirst,omitempty"`
	// SharedExclusive: LockSharedNodes excludes other holders as well (a plain mutex).
	SharedExclusive bool `json:"sharedexclusive,omitempty"`
	// Fine: the calls into distance, generator and allocator are scheduling points as well.
	Fine bool `json:"fine,omitempty"`
}

// SchedPolicy is a build policy that lets exactly one worker run at a time, decides at every
// scheduling point which one goes on, implements the locks and watches what is done under them.
type SchedPolicy struct {
	S Schedule
	// Shares are the trees per worker; nil: numberOfTrees is divided as evenly as possible.
	Shares []int
	Guard  *GuardAllocator

	mu       sync.Mutex
	rng      *Prng
	workers  []*schedWorker
	turn     int
	running  bool
	degraded bool
	dead     bool
	err      error
	steps    int64
	nnodes   int // holder, -1: free
	nodes    int
	roots    int
	readers  map[int]int
	change   map[int64]bool

	// statistics
	Switches, Points, Blocked, GrowUnderWay int
	MaxReaders                              int
}

type schedWorker struct {
	p    *SchedPolicy
	id   int
	wake *sync.Cond
	done bool
	wait string // lock waited for
	prio int
}

type schedAbort struct{}

// NewSched makes the policy.
func NewSched(s Schedule) *SchedPolicy {
	return &SchedPolicy{S: s, rng: NewPrng(s.Seed), nnodes: -1, nodes: -1, roots: -1, readers: map[int]int{}, turn: -1}
}

// Build implements interfaces.AnnoyIndexBuildPolicy.
func (p *SchedPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	shares := p.Shares
	if shares == nil {
		if workers < 1 {
			workers = 1
		}
		for i := 0; i < workers; i++ {
			n := trees
			if trees != -1 {
				n = (trees + i) / workers
			}
			shares = append(shares, n)
		}
	}
	p.change = map[int64]bool{}
	for i := 0; p.S.Kind == "pct" && i < p.S.P; i++ {
		p.change[int64(p.rng.Intn(3000))] = true
	}
	p.workers = nil
	for i := range shares {
		w := &schedWorker{p: p, id: i, prio: p.rng.Intn(1 << 20)}
		w.wake = sync.NewCond(&p.mu)
		p.workers = append(p.workers, w)
	}
	p.running = true
	p.turn = p.rng.Intn(len(shares))
	var wg sync.WaitGroup
	for i, n := range shares {
		wg.Add(1)
		go func(w *schedWorker, n int) {
			defer wg.Done()
			err := Guard(func() error {
				p.mu.Lock()
				w.takeTurn()
				p.mu.Unlock()
				b.ThreadBuild(n, w.id, w)
				return nil
			})
			p.mu.Lock()
			defer p.mu.Unlock()
			w.done = true
			if err != nil {
				if pe, ok := err.(*PanicError); !ok || pe.Value != (schedAbort{}) {
					p.fail(fmt.Errorf("worker %d: %w", w.id, err))
				}
			} else if p.nnodes == w.id || p.nodes == w.id || p.roots == w.id || p.readers[w.id] > 0 {
				p.fail(fmt.Errorf("worker %d ended holding a lock", w.id))
			}
			p.next(w)
		}(p.workers[i], n)
	}
	stop := make(chan struct{})
	go p.watch(stop)
	wg.Wait()
	close(stop)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.running = false
	p.turn = -1
	if p.Guard != nil {
		p.Guard.Protect(true)
	}
	var ie InfraError
	if errors.As(p.err, &ie) {
		panic(ie)
	}
	if p.err != nil {
		panic(Violation{p.err.Error()})
	}
}

// watch lets all workers go when the one whose turn it is waits for something the policy knows
// nothing of; from then on only the locks order them and nothing is monitored.
func (p *SchedPolicy) watch(stop chan struct{}) {
	last, seen := int64(-1), time.Now()
	for {
		select {
		case <-stop:
			return
		case <-time.After(200 * time.Millisecond):
		}
		n := atomic.LoadInt64(&p.steps)
		if n != last {
			last, seen = n, time.Now()
			continue
		}
		if time.Since(seen) > 3*time.Second {
			p.mu.Lock()
			p.degraded = true
			if p.Guard != nil {
				p.Guard.Protect(true)
			}
			p.wakeAll()
			p.mu.Unlock()
			return
		}
	}
}

// Degraded reports whether the workers had to be let go.
func (p *SchedPolicy) Degraded() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.degraded }

func (p *SchedPolicy) wakeAll() {
	for _, w := range p.workers {
		w.wake.Broadcast()
	}
}

func (p *SchedPolicy) fail(err error) {
	if p.err == nil {
		p.err = err
	}
	p.dead = true
	p.wakeAll()
}

func (p *SchedPolicy) free(lock string, w int) bool {
	switch lock {
	case "":
		return true
	case "nnodes":
		return p.nnodes == -1
	case "roots":
		return p.roots == -1
	case "nodes":
		return p.nodes == -1 && len(p.readers) == 0
	case "shared":
		if p.nodes != -1 {
			return false
		}
		if p.S.SharedExclusive {
			return len(p.readers) == 0
		}
		if p.S.WriterFirst {
			for _, x := range p.workers {
				if x.wait == "nodes" {
					return false
				}
			}
		}
		return true
	}
	panic("lock " + lock)
}

// next hands the turn on; w is the worker whose turn it was. Called with p.mu held.
func (p *SchedPolicy) next(w *schedWorker) {
	atomic.AddInt64(&p.steps, 1)
	if p.degraded || p.dead {
		p.wakeAll()
		return
	}
	var able []*schedWorker
	for _, x := range p.workers {
		if !x.done && p.free(x.wait, x.id) {
			able = append(able, x)
		}
	}
	if len(able) == 0 {
		for _, x := range p.workers {
			if !x.done {
				p.fail(fmt.Errorf("deadlock: %s", p.state()))
				return
			}
		}
		p.turn = -1
		return
	}
	p.Points++
	to := p.choose(w, able)
	if to.id != p.turn {
		p.Switches++
		if p.nodes != -1 {
			p.GrowUnderWay++
		}
	}
	p.turn = to.id
	if to != w {
		to.wake.Broadcast()
	}
}

func (p *SchedPolicy) choose(w *schedWorker, able []*schedWorker) *schedWorker {
	stay := false
	for _, x := range able {
		if x == w {
			stay = true
		}
	}
	switch p.S.Kind {
	case "pct":
		if p.change[atomic.LoadInt64(&p.steps)] && stay {
			w.prio = -int(atomic.LoadInt64(&p.steps))
		}
		best := able[0]
		for _, x := range able {
			if x.prio > best.prio {
				best = x
			}
		}
		return best
	case "robin":
		if stay && p.S.P > 0 && p.steps%int64(p.S.P) != 0 {
			return w
		}
		for _, x := range able {
			if x.id > p.turn {
				return x
			}
		}
		return able[0]
	case "starve":
		// one worker only runs when nobody else can
		var rest []*schedWorker
		for _, x := range able {
			if x.id != int(p.S.Seed%uint64(len(p.workers))) {
				rest = append(rest, x)
			}
		}
		if len(rest) > 0 {
			able = rest
		}
		return able[p.rng.Intn(len(able))]
	}
	if stay && p.rng.Intn(100) >= p.S.P {
		return w
	}
	return able[p.rng.Intn(len(able))]
}

func (p *SchedPolicy) state() string {
	s := ""
	for _, x := range p.workers {
		switch {
		case x.done:
			s += fmt.Sprintf("worker %d is done, ", x.id)
		case x.wait != "":
			s += fmt.Sprintf("worker %d waits for %s, ", x.id, x.wait)
		default:
			s += fmt.Sprintf("worker %d is ready, ", x.id)
		}
	}
	return fmt.Sprintf("%snnodes is held by %d, nodes by %d, roots by %d, shared nodes by %v", s, p.nnodes, p.nodes, p.roots, p.readers)
}

// takeTurn waits until the worker may go on. Called with p.mu held.
func (w *schedWorker) takeTurn() {
	p := w.p
	for {
		if p.dead {
			p.mu.Unlock()
			panic(schedAbort{})
		}
		if (p.degraded || p.turn == w.id) && p.free(w.wait, w.id) {
			break
		}
		w.wake.Wait()
	}
	atomic.AddInt64(&p.steps, 1)
	p.rights(w)
}

func (p *SchedPolicy) mayTouch(w int) bool {
	return p.nodes == w || p.readers[w] > 0 || p.nnodes == w
}

func (p *SchedPolicy) rights(w *schedWorker) {
	if p.Guard != nil && !p.degraded {
		p.Guard.Protect(p.mayTouch(w.id))
	}
}

func (w *schedWorker) lock(name string, take func()) {
	p := w.p
	p.mu.Lock()
	w.wait = name
	if !p.free(name, w.id) {
		p.Blocked++
	}
	p.next(w)
	w.takeTurn()
	w.wait = ""
	take()
	if len(p.readers) > p.MaxReaders {
		p.MaxReaders = len(p.readers)
	}
	p.rights(w)
	p.mu.Unlock()
}

func (w *schedWorker) unlock(name string, holds func() bool, give func()) {
	p := w.p
	p.mu.Lock()
	if !holds() {
		p.fail(fmt.Errorf("worker %d unlocks %s, which it does not hold (%s)", w.id, name, p.state()))
		p.mu.Unlock()
		panic(schedAbort{})
	}
	give()
	p.rights(w)
	p.next(w)
	w.takeTurn()
	p.mu.Unlock()
}

// Point is a scheduling point inside the calls into plug-ins; item accesses are checked when
// touch is set.
func (p *SchedPolicy) Point() {
	p.mu.Lock()
	if !p.running || p.degraded || p.turn < 0 {
		p.mu.Unlock()
		return
	}
	w := p.workers[p.turn]
	if p.S.Fine {
		p.next(w)
		w.takeTurn()
	}
	p.mu.Unlock()
}

// Current gives the worker that is running, -1 if none or unknown.
func (p *SchedPolicy) Current() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.running || p.degraded {
		return -1
	}
	return p.turn
}

// Fail reports a broken promise noticed by a monitor in the running worker.
func (p *SchedPolicy) Fail(format string, a ...any) {
	p.mu.Lock()
	p.fail(fmt.Errorf(format, a...))
	p.mu.Unlock()
	panic(schedAbort{})
}

// Holds tells what the running worker holds.
func (p *SchedPolicy) Holds() (nnodes, nodes, shared bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.nnodes == p.turn, p.nodes == p.turn, p.readers[p.turn] > 0
}

func (w *schedWorker) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	panic(Violation{"a worker starts a build"})
}
func (w *schedWorker) LockNNodes() { w.lock("nnodes", func() { w.p.nnodes = w.id }) }
func (w *schedWorker) UnlockNNodes() {
	w.unlock("nnodes", func() bool { return w.p.nnodes == w.id }, func() { w.p.nnodes = -1 })
}
func (w *schedWorker) LockNodes() { w.lock("nodes", func() { w.p.nodes = w.id }) }
func (w *schedWorker) UnlockNodes() {
	w.unlock("nodes", func() bool { return w.p.nodes == w.id }, func() { w.p.nodes = -1 })
}
func (w *schedWorker) LockSharedNodes() { w.lock("shared", func() { w.p.readers[w.id]++ }) }
func (w *schedWorker) UnlockSharedNodes() {
	w.unlock("shared", func() bool { return w.p.readers[w.id] > 0 }, func() {
		if w.p.readers[w.id]--; w.p.readers[w.id] == 0 {
			delete(w.p.readers, w.id)
		}
	})
}
func (w *schedWorker) LockRoots() { w.lock("roots", func() { w.p.roots = w.id }) }
func (w *schedWorker) UnlockRoots() {
	w.unlock("roots", func() bool { return w.p.roots == w.id }, func() { w.p.roots = -1 })
}

// The policy itself has no locks: workers use what they are handed.
func (p *SchedPolicy) own() {
	panic(Violation{"the locks of the policy given to the index are used instead of those of the worker"})
}
func (p *SchedPolicy) LockNNodes()        { p.own() }
func (p *SchedPolicy) UnlockNNodes()      { p.own() }
func (p *SchedPolicy) LockNodes()         { p.own() }
func (p *SchedPolicy) UnlockNodes()       { p.own() }
func (p *SchedPolicy) LockSharedNodes()   { p.own() }
func (p *SchedPolicy) UnlockSharedNodes() { p.own() }
func (p *SchedPolicy) LockRoots()         { p.own() }
func (p *SchedPolicy) UnlockRoots()       { p.own() }
