// Package c07 decides: a save that fails or is repeated never loses an index.
package c07

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M) {
	if raw := os.Getenv(orderVar); raw != "" {
		os.Exit(obey(raw))
	}
	// a save needs the directory of its target only; any other may lack, or lie on another file system
	if tmp := os.Getenv("VH_TMP"); tmp != "" {
		os.Setenv("TMPDIR", filepath.Join(tmp, "no such directory"))
	}
	core.Main(m, "C07")
}

func TestCheck(t *testing.T) { core.RunAll(t) }

// Op of a history.
type Op struct {
	Op    string `json:"op"`
	Ix    int    `json:"ix"`
	File  string `json:"file,omitempty"`
	N     int    `json:"n,omitempty"`
	Trees int    `json:"trees,omitempty"`
	Seed  uint64 `json:"seed,omitempty"`
	Fault string `json:"fault,omitempty"`
	Part  int    `json:"part,omitempty"` // per cent of the file that can be written
	Spell string `json:"spell,omitempty"`
}

// path of the file, in one of the ways to spell it.
func (op Op) path(c *core.Ctx) string {
	abs := c.File(op.File)
	switch op.Spell {
	case "relative", "dot":
		wd, err := os.Getwd()
		core.Must(err)
		rel, err := filepath.Rel(wd, abs)
		core.Must(err)
		if op.Spell == "dot" {
			rel = "./" + rel
		}
		return rel
	case "detour":
		return c.Dir + "//sub/.././" + op.File
	}
	return abs
}

// Case of C07.
type Case struct {
	Config  core.Config `json:"config"`
	GCMem   []bool      `json:"gcmem"`
	Ops     []Op        `json:"ops"`
	Queries []int       `json:"queries"`
}

var umask = func() os.FileMode {
	m := syscall.Umask(0o22)
	syscall.Umask(m)
	return os.FileMode(m)
}()

var files = []string{"a.ann", "b.ann", "c %d\u00fc.ann", "link", "sub/d.ann", "via"}

// bystanders are files of others; they may have any name.
var bystanders = func() (r []string) {
	for _, n := range []string{"a.ann", "sub/d.ann", "linked/real.ann", "deep/via.ann"} {
		dir, base := filepath.Split(n)
		for _, x := range []string{base + ".tmp", base + ".temp", base + "~", base + ".bak", base + ".new", base + ".old", base + ".part",
			"." + base, "." + base + ".tmp", ".tmp", "tmp", ".goannoy.tmp"} {
			r = append(r, dir+x)
		}
	}
	return
}()

var _ = core.Sub("history", core.Spec[Case]{
	Quick: 10000, Thorough: 250000,
	Rule: "histories over three index objects and several files (one behind a symbolic link): build, save, save with injected faults (write limit " +
		"part-way, no descriptors, failing re-open, missing directory, directory as target), load, load of damaged files, close; after every step all " +
		"files, the directory and all open indexes are compared with the model; non-trivial: a save over the file an open index is loaded from, or a " +
		"failing save over an existing file",
	Gen: gen, Run: run,
})

func gen(t *rapid.T) Case {
	c := Case{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular", "angular", "dot"}, MaxDim: 40, Rnd: true, Multi: true})}
	for i := 0; i < 3; i++ {
		c.GCMem = append(c.GCMem, rapid.IntRange(0, 2).Draw(t, "gcmem") == 2)
	}
	for i := 0; i < 3; i++ {
		c.Queries = append(c.Queries, rapid.IntRange(0, 500).Draw(t, "query"))
	}
	n := rapid.IntRange(4, 18).Draw(t, "len")
	few := files[:rapid.SampledFrom([]int{1, 2, 2, 6}).Draw(t, "files")]
	if rapid.IntRange(0, 3).Draw(t, "linkfile") == 0 {
		few = []string{"link", "sub/d.ann", "via"}[:rapid.IntRange(2, 3).Draw(t, "links")]
	}
	lastIx := 0
	for i := 0; i < n; i++ {
		op := Op{Ix: rapid.IntRange(0, 2).Draw(t, "ix")}
		if (i > 0 && rapid.Bool().Draw(t, "same")) || i == 1 || i == 3 {
			op.Ix = lastIx // go on with the object built last
		}
		switch k := rapid.IntRange(0, 16).Draw(t, "op"); {
		case k < 2 || i == 0 || i == 2:
			lastIx = op.Ix
			op.Op = "build"
			op.N = rapid.SampledFrom([]int{1, 2, 5, 30, 90, 250}).Draw(t, "n")
			op.Trees = rapid.IntRange(1, 4).Draw(t, "trees")
			op.Seed = rapid.Uint64().Draw(t, "dataseed")
		case k < 7 || i == 1 || i == 3:
			op.Op = "save"
			op.File = rapid.SampledFrom(few).Draw(t, "file")
		case k < 12:
			op.Op = "badsave"
			op.File = rapid.SampledFrom(few).Draw(t, "file")
			op.Fault = rapid.SampledFrom([]string{"limit", "limit", "limit", "nofd", "reopen", "nodir", "isdir", "name", "foreign", "readonly"}).Draw(t, "fault")
			if op.Fault == "limit" || op.Fault == "foreign" || op.Fault == "readonly" {
				op.Part = rapid.SampledFrom([]int{0, 1, 30, 50, 99, 100}).Draw(t, "part")
			}
		case k < 14:
			op.Op = "load"
			op.File = rapid.SampledFrom(few).Draw(t, "file")
		case k < 15 && rapid.Bool().Draw(t, "chmod"):
			op.Op = "chmod"
			op.File = rapid.SampledFrom(few).Draw(t, "file")
			op.Part = rapid.SampledFrom([]int{0o600, 0o640, 0o644, 0o664, 0o666, 0o400, 0o444, 0o755}).Draw(t, "mode")
		case k < 16:
			op.Op = "badload"
			op.File = rapid.SampledFrom(few).Draw(t, "file")
			op.Fault = rapid.SampledFrom([]string{"missing", "empty", "cut", "isdir", "nofd", "open", "underfile"}).Draw(t, "fault")
			op.Part = rapid.IntRange(1, 99).Draw(t, "part")
		default:
			op.Op = "close"
		}
		op.Spell = rapid.SampledFrom([]string{"", "", "relative", "dot", "detour"}).Draw(t, "spell")
		c.Ops = append(c.Ops, op)
	}
	return c
}

// version is what an index holds: set when it is built.
type version struct {
	items []core.ItemT
	mod   core.Model
	ids   [][]uint64
	ds    [][]float64
	bytes []byte
}

type object struct {
	ix    core.Index
	alloc *core.FlakyAllocator
	v     *version // nil: nothing to query
	from  string   // file it is loaded from
}

func run(c *core.Ctx, cs Case) error {
	var objs []*object
	for i := 0; i < 3; i++ {
		cf := cs.Config
		cf.GCMem = cs.GCMem[i]
		o := &object{alloc: core.NewFlakyAllocator(cf.GCMem)}
		o.ix = core.Open(cf, &core.Plug{FileAlloc: o.alloc})
		objs = append(objs, o)
		c.Cleanup(func() { o.ix.Close() })
	}
	core.Must(os.Mkdir(c.File("sub"), 0o755))
	core.Must(os.Mkdir(c.File("adir"), 0o755))
	core.Must(os.WriteFile(c.File("afile"), []byte("no index"), 0o644))
	core.Must(os.Mkdir(c.File("linked"), 0o755))
	core.Must(os.Symlink("linked/real.ann", c.File("link")))
	// a link to deep/via.ann, by way of a directory that is a link itself
	core.Must(os.MkdirAll(c.File("deep/er"), 0o755))
	core.Must(os.Symlink("deep/er", c.File("hop")))
	core.Must(os.Symlink("hop/../via.ann", c.File("via")))
	if len(cs.Ops)%2 == 0 {
		for _, n := range bystanders {
			core.Must(os.WriteFile(c.File(n), []byte(n), 0o644))
		}
	}
	content := map[string]*version{} // what a file holds
	modes := map[string]os.FileMode{}

	ask := func(o *object, v *version) (ids [][]uint64, ds [][]float64) {
		ctx := o.ix.Ctx()
		for i, q := range cs.Queries {
			it := v.items[q%len(v.items)]
			a, b := o.ix.ByItem(it.ID, 5, 3+i*20, ctx)
			ids, ds = append(ids, a), append(ds, b)
		}
		return
	}

	check := func() error {
		for i, o := range objs {
			if o.v == nil {
				continue
			}
			for id, v := range o.v.mod {
				if got := o.ix.Item(id); !core.SameVec(got, v) {
					return fmt.Errorf("index %d: item %d reads %v, it is %v", i, id, got, v)
				}
			}
			ids, ds := ask(o, o.v)
			for k := range ids {
				if err := core.SameAnswer(o.v.ids[k], o.v.ds[k], ids[k], ds[k]); err != nil {
					return fmt.Errorf("index %d answers query %d otherwise than when it was built: %w", i, k, err)
				}
			}
		}
		for name, v := range content {
			b, err := os.ReadFile(c.File(name))
			if err != nil {
				return fmt.Errorf("file %s is lost: %v", name, err)
			}
			st, err := os.Stat(c.File(name))
			core.Must(err)
			if mode, ok := modes[name]; !ok && st.Mode().Perm()&(0o444&^umask) == 0o444&^umask {
				modes[name] = st.Mode().Perm()
			} else if st.Mode().Perm() != mode {
				return fmt.Errorf("file %s has permissions %v, had %v", name, st.Mode(), mode)
			}
			if v.bytes == nil {
				if _, err := core.ParseForest(b, cs.Config.Layout()); err != nil {
					return fmt.Errorf("file %s is no index: %w", name, err)
				}
				v.bytes = b
			}
			if !bytes.Equal(b, v.bytes) {
				return fmt.Errorf("file %s has %d bytes, other than the %d of the index saved there", name, len(b), len(v.bytes))
			}
		}
		return listing(c, content, len(cs.Ops)%2 == 0)
	}

	for i, op := range cs.Ops {
		o := objs[op.Ix]
		what := fmt.Sprintf("op %d %+v", i, op)
		switch op.Op {
		case "build":
			if err := o.ix.Close(); err != nil {
				return fmt.Errorf("%s: close: %w", what, err)
			}
			s := core.Setup{Config: cs.Config, Data: core.Data{Kind: "gauss", Seed: op.Seed, N: op.N, IDs: "dense"}}
			v := &version{items: s.Data.Items(cs.Config)}
			v.mod = core.ModelOf(v.items)
			for _, it := range v.items {
				o.ix.Add(it.ID, it.V)
			}
			o.ix.Build(op.Trees, 1+op.Ix)
			o.v, o.from = v, ""
			v.ids, v.ds = ask(o, v)
		case "save":
			if o.v == nil {
				continue
			}
			for k, x := range objs {
				if x.v != nil && x.from == op.File {
					c.NonTrivial()
					c.Class("saved over the file an index is loaded from")
					c.ClassIf(k == op.Ix, "saved over its own file")
				}
			}
			c.ClassIf(content[op.File] != nil, "saved over a file")
			if err := o.ix.Save(op.path(c)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			content[op.File] = o.v
			o.from = op.File
		case "badsave":
			if o.v == nil {
				continue
			}
			old := content[op.File]
			if op.Fault == "foreign" || op.Fault == "readonly" {
				if err := asNobody(c, o, objs, op); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				break
			}
			if err := badSave(c, cs, o, op, content); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if old != nil {
				c.NonTrivial()
			}
		case "chmod":
			if content[op.File] == nil {
				continue
			}
			core.Must(os.Chmod(c.File(op.File), os.FileMode(op.Part)))
			modes[op.File] = os.FileMode(op.Part)
			c.Class("permissions changed")
		case "load":
			v := content[op.File]
			if v == nil {
				continue
			}
			if err := o.ix.Load(op.path(c)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			o.v, o.from = v, op.File
			c.Class("loaded")
		case "badload":
			if err := badLoad(c, o, op, content); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			o.v, o.from = nil, ""
		case "close":
			if err := o.ix.Close(); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			o.v, o.from = nil, ""
		}
		if err := check(); err != nil {
			return fmt.Errorf("after %s: %w", what, err)
		}
	}
	// whatever happened, every object can be used again
	for i, o := range objs {
		for name, v := range content {
			if err := o.ix.Load(c.File(name)); err != nil {
				return fmt.Errorf("at the end, index %d loading %s: %w", i, name, err)
			}
			o.v = v
		}
	}
	if err := check(); err != nil {
		return fmt.Errorf("after loading all again: %w", err)
	}
	for i, o := range objs {
		if err := o.ix.Close(); err != nil {
			return fmt.Errorf("closing index %d: %w", i, err)
		}
		o.v = nil
		s := core.Setup{Config: cs.Config, Data: core.Data{Kind: "gauss", Seed: 5, N: 20, IDs: "dense"}}
		items := s.Data.Items(cs.Config)
		for _, it := range items {
			o.ix.Add(it.ID, it.V)
		}
		o.ix.Build(1, 1)
		if ids, _ := o.ix.ByItem(3, 20, 1000, o.ix.Ctx()); len(ids) != 20 {
			return fmt.Errorf("index %d built anew finds %d of 20 items", i, len(ids))
		}
	}
	return nil
}

func badSave(c *core.Ctx, cs Case, o *object, op Op, content map[string]*version) error {
	var err error
	target := op.path(c)
	replaced := false
	c.Class("save with fault %s", op.Fault)
	switch op.Fault {
	case "limit":
		size := uint64(0)
		if o.v.bytes != nil {
			size = uint64(len(o.v.bytes))
		} else {
			size = uint64(cs.Config.Layout().NodeSize * (len(o.v.mod) + 3))
		}
		core.WithFileSizeLimit(size*uint64(op.Part)/100, func() { err = o.ix.Save(target) })
		if err == nil {
			replaced = true // compared byte for byte below
			if o.v.bytes != nil && op.Part < 100 {
				return fmt.Errorf("save gave no error though only %d of %d bytes could be written", size*uint64(op.Part)/100, size)
			}
		}
	case "nofd":
		core.WithFreeDescriptors(0, func() { err = o.ix.Save(target) })
		if err == nil {
			return fmt.Errorf("save gave no error with no descriptor to be had")
		}
	case "reopen":
		o.alloc.Fail = true
		err = o.ix.Save(target)
		o.alloc.Fail = false
		if err == nil {
			return fmt.Errorf("save gave no error though the file could not be opened afterwards")
		}
		// complete with the old or with the new contents
		b, e := os.ReadFile(target)
		if e == nil && (content[op.File] == nil || !bytes.Equal(b, content[op.File].bytes)) {
			content[op.File] = o.v
		}
		return nil
	case "nodir":
		if err = o.ix.Save(c.File("none/x.ann")); err == nil {
			return fmt.Errorf("save into a missing directory gave no error")
		}
		return nil
	case "isdir":
		if err = o.ix.Save(c.File("adir")); err == nil {
			return fmt.Errorf("save onto a directory gave no error")
		}
		return nil
	case "name":
		if err = o.ix.Save(c.File("afile/x.ann")); err == nil {
			return fmt.Errorf("save below a file gave no error")
		}
		if err = o.ix.Save(c.File(strings.Repeat("n", 300))); err == nil {
			return fmt.Errorf("save with a name of 300 characters gave no error")
		}
		return nil
	}
	if replaced {
		content[op.File] = o.v
		o.from = op.File
	}
	return nil
}

// asNobody saves an index with few rights: over a file of someone else in a directory for all, or
// over a file of its own in a directory of someone else. Such a save may fail.
func asNobody(c *core.Ctx, o *object, objs []*object, op Op) error {
	dir := c.File(op.Fault)
	defer os.RemoveAll(dir)
	core.Must(os.Mkdir(dir, 0o755))
	name := filepath.Join(dir, "x.ann")
	before := []byte("no index")
	for _, x := range objs {
		if x != o && x.v != nil && x.v.bytes != nil {
			// and another index is loaded from it
			before = x.v.bytes
			core.Must(os.WriteFile(name, before, 0o666))
			if err := x.ix.Load(name); err != nil {
				return fmt.Errorf("load: %w", err)
			}
			x.from = ""
			break
		}
	}
	core.Must(os.WriteFile(name, before, 0o666))
	core.Must(os.Chmod(name, 0o666))
	if op.Fault == "foreign" {
		core.Must(os.Chmod(dir, 0o777|os.ModeSticky))
	} else {
		core.Must(os.Chown(name, core.Nobody, core.Nobody))
	}
	var err error
	did := core.AsNobody(dir, func() {
		if o.v.bytes == nil || op.Part == 100 {
			err = o.ix.Save(name)
			return
		}
		core.WithFileSizeLimit(uint64(len(o.v.bytes)*op.Part/100), func() { err = o.ix.Save(name) })
	})
	if !did {
		return nil
	}
	c.Class("save without rights, %s", op.Fault)
	c.ClassIf(err != nil, "save without rights failed")
	l, e := os.ReadDir(dir)
	core.Must(e)
	if len(l) != 1 || l[0].Name() != "x.ann" {
		return fmt.Errorf("save as an unprivileged user, which gave %v, left %v behind", err, l)
	}
	b, e := os.ReadFile(name)
	core.Must(e)
	switch {
	case err != nil:
		if !bytes.Equal(b, before) {
			return fmt.Errorf("save as an unprivileged user gave %v and put %d bytes in the place of %d", err, len(b), len(before))
		}
	case o.v.bytes != nil:
		o.from = ""
		if !bytes.Equal(b, o.v.bytes) {
			return fmt.Errorf("save as an unprivileged user gave no error and put %d bytes there, not the %d of the index", len(b), len(o.v.bytes))
		}
	default:
		o.from = ""
		o.v.bytes = b
	}
	return nil
}

func badLoad(c *core.Ctx, o *object, op Op, content map[string]*version) error {
	name := c.File("bad.ann")
	defer os.Remove(name)
	var err error
	c.Class("load with fault %s", op.Fault)
	switch op.Fault {
	case "missing":
		err = o.ix.Load(c.File("missing.ann"))
	case "underfile":
		err = o.ix.Load(c.File("afile/x.ann"))
	case "isdir":
		err = o.ix.Load(c.File("adir"))
	case "empty":
		core.Must(os.WriteFile(name, nil, 0o644))
		err = o.ix.Load(name)
	case "cut":
		l := o.ix.Layout()
		b := make([]byte, l.NodeSize*3)
		if v := content[op.File]; v != nil && v.bytes != nil {
			b = v.bytes
		}
		n := len(b) * op.Part / 100
		if n%l.NodeSize == 0 {
			n++
		}
		core.Must(os.WriteFile(name, b[:n], 0o644))
		err = o.ix.Load(name)
	case "nofd":
		if content[op.File] == nil {
			return nil
		}
		// what is loaded now is closed first and gives one descriptor back, or is not
		core.Must(o.ix.Close())
		core.WithFreeDescriptors(0, func() { err = o.ix.Load(op.path(c)) })
	case "open":
		o.alloc.Fail = true
		err = o.ix.Load(op.path(c))
		o.alloc.Fail = false
	}
	if err == nil {
		return fmt.Errorf("load gave no error")
	}
	return nil
}

// listing compares the directory with what should be there.
func listing(c *core.Ctx, content map[string]*version, others bool) error {
	want := map[string]bool{"sub/": true, "adir/": true, "afile": true, "linked/": true, "link": true, "deep/": true, "deep/er/": true, "hop": true, "via": true}
	for n := range content {
		want[n] = true
	}
	behind := map[string]string{"link": "linked/real.ann", "via": "deep/via.ann"}
	for link, n := range behind {
		want[n] = true
		if _, err := os.Lstat(c.File(n)); content[link] != nil && err != nil {
			return fmt.Errorf("the file behind the symbolic link %s is gone: %v", link, err)
		}
		if st, err := os.Lstat(c.File(link)); err != nil || st.Mode()&os.ModeSymlink == 0 {
			return fmt.Errorf("the symbolic link %s is gone: %v", link, err)
		}
	}
	if others {
		for _, n := range bystanders {
			want[n] = true
			if b, err := os.ReadFile(c.File(n)); err != nil || string(b) != n {
				return fmt.Errorf("the file %s of someone else was changed: it holds %d bytes, %v", n, len(b), err)
			}
		}
	}
	var got []string
	for _, dir := range []string{"", "sub/", "adir/", "linked/", "deep/", "deep/er/"} {
		l, err := os.ReadDir(c.File(dir))
		core.Must(err)
		for _, e := range l {
			n := dir + e.Name()
			if e.IsDir() {
				n += "/"
			}
			got = append(got, n)
		}
	}
	sort.Strings(got)
	for _, n := range got {
		if !want[n] {
			return fmt.Errorf("%s was left behind; the directory holds %v", n, got)
		}
	}
	return nil
}
