package core

import (
	"errors"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
)

var ignoreXfsz sync.Once

// WithFileSizeLimit runs f while no file can be written beyond limit bytes: writes fail with
// EFBIG, part of the data written.
func WithFileSizeLimit(limit uint64, f func()) {
	ignoreXfsz.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	withRlimit(1 /* RLIMIT_FSIZE */, limit, f)
}

// WithFreeDescriptors runs f while only n more descriptors can be opened.
func WithFreeDescriptors(n int, f func()) {
	open := OpenDescriptors()
	limit := 0
	for i, free := 0, 0; ; i++ {
		limit = i
		if _, used := open[i]; !used {
			if free == n {
				break
			}
			free++
		}
	}
	withRlimit(syscall.RLIMIT_NOFILE, uint64(limit), f)
}

func withRlimit(which int, cur uint64, f func()) {
	var old syscall.Rlimit
	Must(syscall.Getrlimit(which, &old))
	lim := old
	lim.Cur = cur
	if lim.Cur > lim.Max {
		lim.Cur = lim.Max
	}
	Must(syscall.Setrlimit(which, &lim))
	defer func() { Must(syscall.Setrlimit(which, &old)) }()
	f()
}

// OpenDescriptors lists the descriptors of this process and what they lead to.
func OpenDescriptors() map[int]string {
	d, err := os.Open("/proc/self/fd")
	Must(err)
	names, err := d.Readdirnames(-1)
	self := int(d.Fd())
	d.Close()
	Must(err)
	r := map[int]string{}
	for _, n := range names {
		i, err := strconv.Atoi(n)
		if err != nil || i == self {
			continue
		}
		to, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil {
			continue
		}
		r[i] = to
	}
	return r
}

// Held counts the descriptors and mappings this process has of files below dir.
func Held(dir string) (fds, maps []string) {
	for _, to := range OpenDescriptors() {
		if strings.HasPrefix(to, dir+"/") {
			fds = append(fds, strings.TrimPrefix(to, dir+"/"))
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	Must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			maps = append(maps, l[i+len(dir)+1:])
		}
	}
	sort.Strings(fds)
	sort.Strings(maps)
	return
}

// FlakyAllocator is an index allocator that fails to open when told to.
type FlakyAllocator struct {
	interfaces.IndexAllocator
	Fail  bool
	Opens int
	// Closes of allocations handed out
	Closes int
}

// ErrInjected is the injected failure.
var ErrInjected = errors.New("injected failure")

// NewFlakyAllocator wraps the allocators of the library.
func NewFlakyAllocator(gcmem bool) *FlakyAllocator {
	if gcmem {
		return &FlakyAllocator{IndexAllocator: memory.FileIndexMemoryAllocator()}
	}
	return &FlakyAllocator{IndexAllocator: memory.MmapIndexAllocator()}
}

// Open implements interfaces.IndexAllocator.
func (f *FlakyAllocator) Open(name string) (interfaces.AllocatedIndex, error) {
	if f.Fail {
		return nil, ErrInjected
	}
	a, err := f.IndexAllocator.Open(name)
	if err != nil {
		return nil, err
	}
	f.Opens++
	return &countedIndex{a, f}, nil
}

type countedIndex struct {
	interfaces.AllocatedIndex
	f *FlakyAllocator
}

func (c *countedIndex) Close() error {
	c.f.Closes++
	return c.AllocatedIndex.Close()
}

// Nobody is a user who owns nothing.
const Nobody = 65534

// AsNobody runs f, on its thread, with the rights of nobody in the file system; it tells whether
// it could. Directories above dir, up to the scratch directory of the check, are opened for
// passage.
func AsNobody(dir string, f func()) bool {
	if os.Geteuid() != 0 {
		return false
	}
	for d := filepath.Dir(dir); strings.Contains(d, "/vh-"); d = filepath.Dir(d) {
		if st, err := os.Stat(d); err == nil && st.Mode().Perm()&0o1 == 0 {
			os.Chmod(d, st.Mode().Perm()|0o11)
		}
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	set := func(id uintptr) bool {
		syscall.RawSyscall(syscall.SYS_SETFSGID, id, 0, 0)
		syscall.RawSyscall(syscall.SYS_SETFSUID, id, 0, 0)
		now, _, _ := syscall.RawSyscall(syscall.SYS_SETFSUID, ^uintptr(0), 0, 0)
		return now == id
	}
	defer func() {
		if !set(0) {
			panic("the user cannot be changed back")
		}
	}()
	if !set(Nobody) {
		return false
	}
	if _, err := os.Stat(dir + "/."); err != nil {
		return false
	}
	f()
	return true
}
