package core

import (
	"fmt"
	"math"
	"os"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/distance/angular"
	"github.com/mariotoffia/goannoy/distance/dotproduct"
	"github.com/mariotoffia/goannoy/index"
	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
)

// Config describes an index object: plain data, part of the cases.
type Config struct {
	F64     bool   `json:"f64,omitempty"`
	U64     bool   `json:"u64,omitempty"`
	Metric  string `json:"metric"` // angular, dot, euclid, manhattan, wrapped
	Dim     int    `json:"dim"`
	Builder bool   `json:"builder,omitempty"` // made with the builder package (angular only)
	Multi   bool   `json:"multi,omitempty"`   // multi worker policy
	GCMem   bool   `json:"gcmem,omitempty"`   // file read into memory instead of mapped
	Seed    uint64 `json:"seed,omitempty"`    // 0: default of the generator
	Rnd     string `json:"rnd,omitempty"`     // "", kiss, go, xorshift, counter
	Sorter  string `json:"sorter,omitempty"`  // "", lib2, lib3, std, heap
	Hint    int    `json:"hint,omitempty"`
	Verbose bool   `json:"verbose,omitempty"`
}

// Plug holds parts that are not plain data.
type Plug struct {
	Policy     interfaces.AnnoyIndexBuildPolicy
	BuildAlloc interfaces.BuildIndexAllocator
	FileAlloc  interfaces.IndexAllocator
	// Watch is called by the wrappers around distance, random and sorter ("wrapped" plug-ins).
	Watch *Watch
	// Distance, Random and Sorter, when set, are plug-ins of the caller, of the types the index asks for.
	Distance, Random, Sorter any
	// Draws is how many values the caller drew from the generator before handing it over.
	Draws int
}

// Watch gets told of calls into the plug-ins. A nil function is not called.
type Watch struct {
	Map    func(mem uintptr, item uint64)
	Dist   func(op string)
	Random func(op string, n uint64)
	// Measured is told of each distance computed (by the index; a built-in split does not tell).
	Measured func()
	Split    func(children int)
	Sort     func(begin, middle, end, length int)
	// Gen is told which generator is used.
	Gen func(generator any)
}

// Ctx is a query context of the library.
type QCtx any

// Index is the type-erased index. Vectors are float64 and hold values the element type can
// represent exactly.
type Index interface {
	Add(id uint64, v []float64)
	// AddKeep adds and gives a function that scribbles over the slice handed to the library.
	AddKeep(id uint64, v []float64) (scribble func())
	// AddLen and QueryLen are given that many zeros, be they thousands of millions.
	AddLen(id uint64, n int)
	QueryLen(n, results int, ctx QCtx)
	Build(trees, workers int)
	Save(path string) error
	Load(path string) error
	Close() error
	Item(id uint64) []float64
	Dist(i, j uint64) float64
	Ctx() QCtx
	ByVector(v []float64, n, budget int, ctx QCtx) ([]uint64, []float64)
	ByItem(id uint64, n, budget int, ctx QCtx) ([]uint64, []float64)
	// Raw gives the answers without copying them.
	RawByVector(v []float64, n, budget int, ctx QCtx) Answer
	VectorLength() int
	Layout() Layout
}

// Answer is an answer still in the slices the library returned.
type Answer interface {
	Get() ([]uint64, []float64)
	// Scribble overwrites the slices, which belong to the caller.
	Scribble()
}

// Violation is panicked by the adapter when the library breaks a promise every caller has.
type Violation struct{ Msg string }

func (v Violation) Error() string { return v.Msg }

// Round gives x as the element type of the config holds it.
func (c Config) Round(x float64) float64 {
	if c.F64 {
		return x
	}
	return float64(float32(x))
}

// U is the unit roundoff of the element type.
func (c Config) U() float64 {
	if c.F64 {
		return 0x1p-53
	}
	return 0x1p-24
}

// Tiny is the smallest number above zero of the element type.
func (c Config) Tiny() float64 {
	if c.F64 {
		return math.SmallestNonzeroFloat64
	}
	return math.SmallestNonzeroFloat32
}

// IDSize is the size of an index in bytes.
func (c Config) IDSize() int {
	if c.U64 {
		return 8
	}
	return 4
}

// ElemSize is the size of a vector element in bytes.
func (c Config) ElemSize() int {
	if c.F64 {
		return 8
	}
	return 4
}

func (c Config) String() string {
	return fmt.Sprintf("%+v", struct{ C any }{c})
}

// Types names element and index type.
func (c Config) Types() string {
	s := "f32"
	if c.F64 {
		s = "f64"
	}
	if c.U64 {
		return s + "/u64"
	}
	return s + "/u32"
}

// Open makes the index of a config.
func Open(c Config, p *Plug) Index { return OpenMany(c, p, 1)[0] }

// OpenMany makes several indexes that share a builder or, without one, generator, distance,
// policy, sorter and file allocator. Each has a build allocator of its own.
func OpenMany(c Config, p *Plug, count int) []Index {
	if p == nil {
		p = &Plug{}
	}
	switch {
	case c.F64 && c.U64:
		return open[float64, uint64](c, p, count)
	case c.F64:
		return open[float64, uint32](c, p, count)
	case c.U64:
		return open[float32, uint64](c, p, count)
	default:
		return open[float32, uint32](c, p, count)
	}
}

func open[TV interfaces.VectorType, TIX interfaces.IndexTypes](c Config, p *Plug, count int) (r []Index) {
	if c.Verbose {
		quiet()
	}
	for _, i := range TypedMany[TV, TIX](c, p, count) {
		r = append(r, &typed[TV, TIX]{c: c, i: i})
	}
	return
}

var devNull *os.File

// quiet sends the standard output of this process to nowhere.
func quiet() {
	if devNull == nil {
		f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		Must(err)
		devNull = f
		os.Stdout = f
	}
}

func drawn[TIX interfaces.IndexTypes](c Config, p *Plug) interfaces.Random[TIX] {
	r := MakeRandom[TIX](c)
	for i := 0; i < p.Draws; i++ {
		switch i % 3 {
		case 0:
			r.Next()
		case 1:
			r.NextSide()
		default:
			r.NextIndex(7)
		}
	}
	return r
}

// MakeRandom gives the generator of a config.
func MakeRandom[TIX interfaces.IndexTypes](c Config) interfaces.Random[TIX] {
	var t TIX
	_, is32 := any(t).(uint32)
	switch c.Rnd {
	case "xorshift":
		return NewXorshift(TIX(c.Seed))
	case "counter":
		return &CounterRandom[TIX]{seed: TIX(c.Seed)}
	case "go":
		if is32 {
			return any(random.NewGoRandomWithSeed(uint32(c.Seed))).(interfaces.Random[TIX])
		}
	}
	if is32 {
		return any(random.NewKiss32Random(uint32(c.Seed))).(interfaces.Random[TIX])
	}
	return any(random.NewKiss64Random(c.Seed)).(interfaces.Random[TIX])
}

// MakeDistance gives the distance of a config.
func MakeDistance[TV interfaces.VectorType, TIX interfaces.IndexTypes](c Config) interfaces.Distance[TV, TIX] {
	switch c.Metric {
	case "dot":
		return dotproduct.Distance[TV](TIX(c.Dim))
	case "euclid", "manhattan":
		return NewMinkowski[TV, TIX](c.Dim, c.Metric == "euclid")
	default:
		return angular.Distance[TV](TIX(c.Dim))
	}
}

// TypedMany makes the typed indexes of a config.
func TypedMany[TV interfaces.VectorType, TIX interfaces.IndexTypes](c Config, p *Plug, count int) (r []interfaces.AnnoyIndex[TV, TIX]) {
	if n := c.Layout().NodeSize; c.Hint > 0 && p.BuildAlloc == nil && MemLimit < 4<<30 {
		c.Hint = max(1, min(c.Hint, (200<<20)/n)) // it is allocated
	}
	if c.Builder && c.Metric == "angular" && p.Policy == nil && p.BuildAlloc == nil && p.FileAlloc == nil && p.Watch == nil &&
		p.Distance == nil && p.Random == nil && p.Sorter == nil {
		b := builder.Index[TV, TIX]().AngularDistance(c.Dim).IndexNumHint(c.Hint)
		if c.Multi {
			b.UseMultiWorkerPolicy()
		} else if c.Seed%2 == 1 {
			b.SingleWorkerPolicy() // else: the default
		}
		if c.GCMem {
			b.GCMemoryIndexAllocator()
		} else if c.Seed%3 == 1 {
			b.MmapIndexAllocator()
		}
		if c.Seed != 0 || c.Rnd != "" || p.Draws > 0 {
			b.Random(drawn[TIX](c, p))
		}
		if s := MakeSorter[TV, TIX](c.Sorter); s != nil {
			b.UseSorter(s)
		}
		if c.Verbose {
			b.VerboseLogging()
		}
		for i := 0; i < count; i++ {
			r = append(r, b.Build())
		}
		return
	}

	pol := p.Policy
	if pol == nil {
		if c.Multi {
			pol = policy.MultiWorker()
		} else {
			pol = policy.SingleWorker()
		}
	}
	fa := p.FileAlloc
	if fa == nil {
		if c.GCMem {
			fa = memory.FileIndexMemoryAllocator()
		} else {
			fa = memory.MmapIndexAllocator()
		}
	}
	rnd := drawn[TIX](c, p)
	dist := MakeDistance[TV, TIX](c)
	srt := MakeSorter[TV, TIX](c.Sorter)
	if p.Distance != nil {
		dist = p.Distance.(interfaces.Distance[TV, TIX])
	}
	if p.Random != nil {
		rnd = p.Random.(interfaces.Random[TIX])
	}
	if p.Sorter != nil {
		srt = p.Sorter.(interfaces.Sorter[TV, TIX])
	}
	if p.Watch != nil {
		if srt == nil {
			srt = MakeSorter[TV, TIX]("std")
		}
		rnd = &watchedRandom[TIX]{rnd, p.Watch}
		dist = &watchedDistance[TV, TIX]{dist, p.Watch}
		srt = &watchedSorter[TV, TIX]{srt, p.Watch}
	}
	for i := 0; i < count; i++ {
		alloc := p.BuildAlloc
		if alloc == nil {
			alloc = memory.GoGCIndexAllocator()
		}
		r = append(r, index.New[TV, TIX](rnd, dist, pol, alloc, fa, srt, c.Verbose, TIX(c.Hint)))
	}
	return
}

type typed[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	c   Config
	i   interfaces.AnnoyIndex[TV, TIX]
	add slices[TV]
}

// slices are those of a caller, who mostly fills the same one anew.
type slices[TV interfaces.VectorType] struct {
	buf []TV
	n   int
}

func (s *slices[TV]) of(v []float64) []TV {
	if s.n++; s.n%3 == 0 || len(s.buf) != len(v) {
		s.buf = conv[TV](v)
		return s.buf
	}
	for i, x := range v {
		s.buf[i] = TV(x)
	}
	return s.buf
}

// qctx is a context with the slice of the one who uses it.
type qctx[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	ctx interfaces.AnnoyIndexContext[TV, TIX]
	q   slices[TV]
}

func conv[TV interfaces.VectorType](v []float64) []TV {
	r := make([]TV, len(v))
	for i, x := range v {
		r[i] = TV(x)
	}
	return r
}

func (t *typed[TV, TIX]) id(id uint64) TIX {
	if uint64(TIX(id)) != id {
		Infra("id %d does not fit the index type", id)
	}
	return TIX(id)
}

func (t *typed[TV, TIX]) Add(id uint64, v []float64) { t.i.AddItem(t.id(id), t.add.of(v)) }

func (t *typed[TV, TIX]) AddKeep(id uint64, v []float64) func() {
	s := conv[TV](v)
	t.i.AddItem(t.id(id), s)
	return func() {
		for i, x := range conv[TV](v) {
			if math.Float64bits(float64(s[i])) != math.Float64bits(float64(x)) {
				panic(fmt.Sprintf("adding item %d changed element %d of the slice that was passed in from %v to %v", id, i, x, s[i]))
			}
		}
		for i := range s {
			s[i] = -77.25
		}
	}
}

// zeros gives n zeros to read.
func zeros[TV interfaces.VectorType](n int) (v []TV, free func()) {
	if n < 1<<24 {
		return make([]TV, n), func() {}
	}
	size := n * int(unsafe.Sizeof(TV(0)))
	mem, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	Must(err)
	return unsafe.Slice((*TV)(unsafe.Pointer(&mem[0])), n), func() { Must(syscall.Munmap(mem)) }
}

func (t *typed[TV, TIX]) AddLen(id uint64, n int) {
	v, free := zeros[TV](n)
	defer free()
	t.i.AddItem(t.id(id), v)
}

func (t *typed[TV, TIX]) QueryLen(n, results int, ctx QCtx) {
	v, free := zeros[TV](n)
	defer free()
	t.i.GetNnsByVector(v, results, -1, ctx.(*qctx[TV, TIX]).ctx)
}

func (t *typed[TV, TIX]) Build(trees, workers int) { t.i.Build(trees, workers) }
func (t *typed[TV, TIX]) Save(path string) error   { return t.i.Save(path) }
func (t *typed[TV, TIX]) Load(path string) error   { return t.i.Load(path) }
func (t *typed[TV, TIX]) Close() error             { return t.i.Close() }
func (t *typed[TV, TIX]) Ctx() QCtx                { return &qctx[TV, TIX]{ctx: t.i.CreateContext()} }
func (t *typed[TV, TIX]) VectorLength() int        { return int(t.i.VectorLength()) }
func (t *typed[TV, TIX]) Layout() Layout           { return t.c.Layout() }

func (t *typed[TV, TIX]) Item(id uint64) []float64 {
	v := t.i.GetItem(t.id(id))
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = float64(x)
	}
	return r
}

func (t *typed[TV, TIX]) Dist(i, j uint64) float64 {
	return float64(t.i.GetDistance(t.id(i), t.id(j)))
}

type answer[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	ids []TIX
	ds  []TV
}

func (a *answer[TV, TIX]) Get() ([]uint64, []float64) {
	if len(a.ids) != len(a.ds) {
		panic(Violation{fmt.Sprintf("%d results but %d distances", len(a.ids), len(a.ds))})
	}
	ids, ds := make([]uint64, len(a.ids)), make([]float64, len(a.ds))
	for i := range a.ids {
		ids[i], ds[i] = uint64(a.ids[i]), float64(a.ds[i])
	}
	return ids, ds
}

func (a *answer[TV, TIX]) Scribble() {
	for i := range a.ids {
		a.ids[i] = TIX(i) + 3
	}
	for i := range a.ds {
		a.ds[i] = -1
	}
	// also what append would give
	for _, x := range [][]TIX{a.ids[:cap(a.ids)]} {
		for i := range x {
			x[i] = 1
		}
	}
}

func (t *typed[TV, TIX]) RawByVector(v []float64, n, budget int, ctx QCtx) Answer {
	c := ctx.(*qctx[TV, TIX])
	q := c.q.of(v)
	ids, ds := t.i.GetNnsByVector(q, n, budget, c.ctx)
	for i := range q {
		if math.Float64bits(float64(q[i])) != math.Float64bits(v[i]) {
			panic(Violation{fmt.Sprintf("the query changed element %d of the query vector from %v to %v", i, v[i], q[i])})
		}
	}
	return &answer[TV, TIX]{ids, ds}
}

func (t *typed[TV, TIX]) ByVector(v []float64, n, budget int, ctx QCtx) ([]uint64, []float64) {
	return t.RawByVector(v, n, budget, ctx).Get()
}

func (t *typed[TV, TIX]) ByItem(id uint64, n, budget int, ctx QCtx) ([]uint64, []float64) {
	ids, ds := t.i.GetNnsByItem(t.id(id), n, budget, ctx.(*qctx[TV, TIX]).ctx)
	return (&answer[TV, TIX]{ids, ds}).Get()
}
