package core

import (
	"errors"
	"os"
	"syscall"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
)

// GuardAllocator is a build allocator that gives exactly the bytes asked for, directly before
// (or after) inaccessible memory, moves the block at every request and makes the old one
// inaccessible, so that any access outside of the latest block is a memory fault.
type GuardAllocator struct {
	AtStart bool // the block begins behind inaccessible memory instead of ending before it
	Check   func(size int)
	// OnFree, when set, is told of Free.
	OnFree func()

	maps  [][]byte // all mappings ever made
	data  []byte   // pages of the current block
	ptr   unsafe.Pointer
	size  int
	prot  int
	Moves int
	Frees int
	All   []Block
}

// Block that was handed out.
type Block struct {
	Ptr  uintptr
	Size int
}

const page = 4096

// Reallocate implements interfaces.BuildIndexAllocator.
func (g *GuardAllocator) Reallocate(size int) unsafe.Pointer {
	if g.Check != nil {
		g.Check(size)
	}
	if size < 0 || size > 1<<33 {
		panic(Violation{"a block of " + itoa(size) + " bytes is asked for"})
	}
	g.Moves++
	old, oldPtr, oldSize := g.data, g.ptr, g.size
	n := (size + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		Infra("mmap: %w", err)
	}
	g.maps = append(g.maps, m)
	g.data = m[page : page+n]
	off := n - size
	if g.AtStart {
		off = 0
	}
	base := unsafe.Pointer(unsafe.SliceData(m))
	g.ptr = unsafe.Add(base, page+off)
	g.size = size
	g.prot = -1
	g.Protect(true)
	if old != nil {
		c := oldSize
		if size < c {
			c = size
		}
		Must(protect(old, syscall.PROT_READ))
		copy(unsafe.Slice((*byte)(g.ptr), size), unsafe.Slice((*byte)(oldPtr), c))
		Must(protect(old, syscall.PROT_NONE))
	}
	g.All = append(g.All, Block{uintptr(g.ptr), size})
	return g.ptr
}

func protect(b []byte, prot int) error {
	if len(b) == 0 {
		return nil
	}
	return syscall.Mprotect(b, prot)
}

// Protect opens or closes the current block.
func (g *GuardAllocator) Protect(open bool) {
	prot := syscall.PROT_NONE
	if open {
		prot = syscall.PROT_READ | syscall.PROT_WRITE
	}
	if g.data == nil || prot == g.prot {
		return
	}
	Must(protect(g.data, prot))
	g.prot = prot
}

// Current block.
func (g *GuardAllocator) Current() (ptr uintptr, size int) { return uintptr(g.ptr), g.size }

// Free implements interfaces.BuildIndexAllocator.
func (g *GuardAllocator) Free() {
	g.Frees++
	if g.OnFree != nil {
		g.OnFree()
	}
	if g.data != nil {
		Must(protect(g.data, syscall.PROT_NONE))
	}
	g.data, g.ptr, g.size, g.prot = nil, nil, 0, -1
}

// Release unmaps everything; call when no index uses the allocator any more.
func (g *GuardAllocator) Release() {
	for _, m := range g.maps {
		syscall.Munmap(m)
	}
	g.maps, g.data, g.ptr, g.size = nil, nil, nil, 0
}

func itoa(i int) string {
	neg := i < 0
	if neg {
		i = -i
	}
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		if i /= 10; i == 0 {
			break
		}
	}
	if neg {
		return "-" + s
	}
	return s
}

// GuardFiles is an index allocator that copies the file to read-only memory that ends (or
// begins) exactly at inaccessible memory. What is closed becomes inaccessible.
type GuardFiles struct {
	AtStart bool

	maps    [][]byte
	open    map[string]*GuardedFile
	Opens   int
	Closes  int
	Overlap bool // closed more than once
}

// GuardedFile is one allocation of GuardFiles.
type GuardedFile struct {
	g      *GuardFiles
	name   string
	data   []byte
	ptr    unsafe.Pointer
	size   int64
	closed bool
}

// Open implements interfaces.IndexAllocator.
func (g *GuardFiles) Open(name string) (interfaces.AllocatedIndex, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 {
		return nil, errors.New("empty file")
	}
	n := (len(b) + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		Infra("mmap: %w", err)
	}
	g.maps = append(g.maps, m)
	f := &GuardedFile{g: g, name: name, data: m[page : page+n], size: int64(len(b))}
	off := n - len(b)
	if g.AtStart {
		off = 0
	}
	Must(protect(f.data, syscall.PROT_READ|syscall.PROT_WRITE))
	copy(f.data[off:], b)
	Must(protect(f.data, syscall.PROT_READ))
	f.ptr = unsafe.Pointer(&f.data[off])
	if g.open == nil {
		g.open = map[string]*GuardedFile{}
	}
	g.open[name] = f
	g.Opens++
	return f, nil
}

// Get implements interfaces.IndexAllocator.
func (g *GuardFiles) Get(name string) (interfaces.AllocatedIndex, bool) {
	f, ok := g.open[name]
	if !ok {
		return nil, false
	}
	return f, true
}

// Ptr implements interfaces.AllocatedIndex.
func (f *GuardedFile) Ptr() unsafe.Pointer { return f.ptr }

// Size implements interfaces.AllocatedIndex.
func (f *GuardedFile) Size() int64 { return f.size }

// Close implements io.Closer.
func (f *GuardedFile) Close() error {
	if f.closed {
		f.g.Overlap = true
		return errors.New("closed already")
	}
	f.closed = true
	f.g.Closes++
	if f.g.open[f.name] == f {
		delete(f.g.open, f.name)
	}
	Must(protect(f.data, syscall.PROT_NONE))
	return nil
}

// Release unmaps everything.
func (g *GuardFiles) Release() {
	for _, m := range g.maps {
		syscall.Munmap(m)
	}
	g.maps, g.open = nil, nil
}

// Inside tells whether an address belongs to what was handed out, guard pages included.
func Inside(addr uintptr, g *GuardAllocator, f *GuardFiles) bool {
	in := func(maps [][]byte) bool {
		for _, m := range maps {
			p := uintptr(unsafe.Pointer(unsafe.SliceData(m)))
			if addr >= p && addr < p+uintptr(len(m)) {
				return true
			}
		}
		return false
	}
	return in(g.maps) || in(f.maps)
}
