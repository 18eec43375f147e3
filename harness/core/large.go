package core

import "pgregory.net/rapid"

// LargeRule describes what DrawLarge draws.
const LargeRule = "sizes beyond the usual ones: 4 000 to 140 000 items (around powers of two), or 127 to 70 000 trees over few items, or dimensions of 1 023 to " +
	"70 000; "

// DrawLarge draws an index that is large in one respect.
func DrawLarge(t *rapid.T, o Opt) Setup {
	o.MaxDim = 6
	s := Setup{Config: DrawConfig(t, o)}
	s.Config.Verbose = false
	s.Data = DrawData(t, s.Config, o)
	s.Data.Vecs = nil
	if s.Data.Kind == "explicit" {
		s.Data.Kind = "grid"
	}
	around := func(label string, of ...int) int {
		return rapid.SampledFrom(of).Draw(t, label) + rapid.IntRange(-2, 2).Draw(t, "off")
	}
	switch mode := rapid.IntRange(0, 5).Draw(t, "large"); {
	case mode < 3: // many items
		if rapid.Bool().Draw(t, "pow") {
			s.Data.N = around("n", 4096, 8192, 16384, 32768, 65536, 65536, 131072)
		} else {
			s.Data.N = rapid.IntRange(4000, 140000).Draw(t, "n")
		}
		s.Trees = rapid.SampledFrom([]int{1, 1, 2, 3, -1}).Draw(t, "trees")
	case mode < 4: // many trees
		s.Data.N = rapid.SampledFrom([]int{1, 2, 9, 40, 150}).Draw(t, "n")
		s.Trees = around("trees", 129, 256, 256, 512, 1024, 4096)
		if s.Data.N < 20 && rapid.Bool().Draw(t, "most") {
			s.Trees = around("trees", 32768, 65536)
		}
	default: // many dimensions
		s.Config.Dim = around("dim", 1025, 1025, 2048, 4096, 8192, 16384, 32768, 65536, 70000)
		s.Data.N = rapid.IntRange(1, 40).Draw(t, "n")
		k := s.Config.Layout().K
		if k*s.Config.Dim < 5000000 && rapid.IntRange(0, 3).Draw(t, "split") > 0 {
			s.Data.N = k + rapid.IntRange(-1, 30).Draw(t, "n")
		}
		s.Trees = rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "trees")
	}
	// holes between the ids are slots of the file: no more than some 200 MB of them
	if (s.Data.N*(1+s.Data.Gap)+20*s.Data.Gap)*s.Config.Dim > 25000000 {
		s.Data.IDs, s.Data.Gap = "shuffled", 0
	}
	s.Workers = DrawWorkers(t, s.Config)
	return s
}
