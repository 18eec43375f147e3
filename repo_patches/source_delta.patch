From ebc289af9fc9dd70a8f6f723a6ad856eb964514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 01/38] fix: copy whole nodes, not vectorLength bytes of them

CopyNode takes a size in bytes but was given the number of vector elements,
so split nodes and root copies lost (part of) their children and hyperplane.
---
 distance/two_means.go | 4 ++--
 index/annoyindex.go   | 4 ++--
 utils/node.go         | 2 ++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/distance/two_means.go b/distance/two_means.go
index 8ccba10..a1aed4d 100644
--- a/distance/two_means.go
+++ b/distance/two_means.go
@@ -34,8 +34,8 @@ func TwoMeans[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		j++ // ensure that i != j
 	}
 
-	utils.CopyNode(p, nodes[i], vectorLength)
-	utils.CopyNode(q, nodes[j], vectorLength)
+	utils.CopyNode(p, nodes[i], distance.NodeSize())
+	utils.CopyNode(q, nodes[j], distance.NodeSize())
 
 	if cosine {
 		distance.Normalize(p)
diff --git a/index/annoyindex.go b/index/annoyindex.go
index 3fad753..0d61c27 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -202,7 +202,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Build(numberOfTrees, numWorkers int) {
 		dst := idx.getNode(idx._n_nodes + i)
 		src := idx.getNode(idx._roots[i])
 
-		utils.CopyNode(dst, src, idx.vectorLength)
+		utils.CopyNode(dst, src, idx.nodeSize)
 
 		if idx.logVerbose {
 			fmt.Printf(
@@ -444,7 +444,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	idx.buildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
-	utils.CopyNode(dst, m, idx.vectorLength)
+	utils.CopyNode(dst, m, idx.nodeSize)
 	idx.buildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
diff --git a/utils/node.go b/utils/node.go
index c2eaa72..8e1c401 100644
--- a/utils/node.go
+++ b/utils/node.go
@@ -20,6 +20,8 @@ func GetPtr[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 
 // CopyNode copies the source node to the destination node. Note that the destination node
 // must be of the same type and take up the same amount of memory as the source node.
+//
+// The _size_ is the size of a node in bytes (see `Distance.NodeSize`).
 func CopyNode[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	dst, src interfaces.Node[TV, TIX], size TIX,
 ) {
-- 
2.43.0


From fa3e50d5553b544afa1b46f53765e179892ec062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 02/38] fix: search the most promising branch first

The priority queue pops its smallest element, the search relied on the largest
margin being popped first. It explored the worst branches of every tree.
---
 index/annoyindex_search.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 7a2419d..5cfd939 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -84,8 +84,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		numNodesToInspect = numReturn * len(idx._roots)
 	}
 
+	// The queue yields its smallest element first, hence all priorities are negated to
+	// visit the node with the largest margin first.
 	for i := range idx._roots {
-		q.Push(idx.distance.PQInitialValue(), idx._roots[i])
+		q.Push(-idx.distance.PQInitialValue(), idx._roots[i])
 	}
 
 	cnt := 0
@@ -93,7 +95,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	for cnt < numNodesToInspect && !q.Empty() {
 		top := q.Top()
 
-		d := top.First
+		d := -top.First
 		i := top.Second
 		nd := idx.distance.MapNodeToMemory(idx._nodes, i)
 
@@ -118,12 +120,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 			children := nd.GetChildren()
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideRight),
+				-idx.distance.PQDistance(d, margin, interfaces.SideRight),
 				children[interfaces.SideRight],
 			)
 
 			q.Push(
-				idx.distance.PQDistance(d, margin, interfaces.SideLeft),
+				-idx.distance.PQDistance(d, margin, interfaces.SideLeft),
 				children[interfaces.SideLeft],
 			)
 		}
-- 
2.43.0


From 4e6931333a15abfe3250b3cb90c766bd70a05e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 03/38] fix: let the query context grow with the number of
 candidates

The same item is a candidate once per tree, the context was sized as if items
that are direct children of split nodes were so only once. Queries inspecting
many nodes panicked.
---
 index/annoyindex_search.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 5cfd939..f889f00 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -104,16 +104,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		nDescendants := nd.GetNumberOfDescendants()
 
 		if nDescendants == 1 && i < idx._n_items {
-			bc.nns[cnt] = i
+			bc.nns = append(bc.nns[:cnt], i)
 			cnt++
 		} else if nDescendants <= idx.maxDescendants {
 			dst := nd.GetChildren()
-			if len(dst) == int(nDescendants) {
-				copy(bc.nns[TIX(cnt):], dst)
-			} else {
-				copy(bc.nns[TIX(cnt):], dst[:nDescendants])
-			}
-			cnt += int(nDescendants)
+			bc.nns = append(bc.nns[:cnt], dst...)
+			cnt += len(dst)
 		} else {
 			// Node is normal of the split plane.
 			margin := idx.distance.Margin(nd, vector)
@@ -136,6 +132,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	nns := bc.nns[:cnt]
 	idx.sorter.SortSlice(nns)
 
+	for len(bc.nns_dist) < len(nns) {
+		bc.nns_dist = append(bc.nns_dist, &interfaces.Pair[TV, TIX]{})
+	}
+
 	mem := make([]byte, idx.nodeSize) // Allocate mem on gcheap
 
 	// Prepare node to search for
-- 
2.43.0


From 5c8e41f83f3f85a6532069033243c52e67be9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 04/38] fix: refuse query vectors of the wrong length

As AddItem does. A longer vector was copied past the end of the node allocated
for it, a shorter one read past its end.
---
 index/annoyindex_search.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index f889f00..00e274d 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -1,6 +1,7 @@
 package index
 
 import (
+	"fmt"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
@@ -77,6 +78,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
+	if idx.vectorLength != TIX(len(vector)) {
+		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
+	}
+
 	bc := ctx.(*BatchContext[TV, TIX])
 	q := sort.NewPriorityQueue[TV, TIX]()
 
-- 
2.43.0


From ec71e3036596931c7daebd7f81805b7c79726923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 05/38] fix: load an index where every node looks like a root

With a single item all nodes have one descendant, the unsigned loop variable
wrapped around below zero and Load (thus Save) crashed. Without items the roots
have no children to compare.
---
 index/annoyindex_io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index c777480..32bde0b 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -66,13 +66,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		m    TIX
 	)
 
-	for i := idx._n_nodes - 1; i >= 0; i-- {
+	for i := idx._n_nodes; i > 0; i-- {
 
-		n := idx.getNode(i)
+		n := idx.getNode(i - 1)
 		k := n.GetNumberOfDescendants()
 
 		if !mset || k == m {
-			idx._roots = append(idx._roots, i)
+			idx._roots = append(idx._roots, i-1)
 			m = k
 			mset = true
 		} else {
@@ -81,7 +81,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	}
 
 	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 {
+	if len(idx._roots) > 1 && m > 0 {
 		fn := idx.getNode(idx._roots[0])
 		ln := idx.getNode(idx._roots[len(idx._roots)-1])
 
-- 
2.43.0


From 7cc8a8e9cbca0295e75bde74ff0ded57fc239de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 06/38] fix: do not search a tree twice after loading

The original of a root directly before the copied roots was recognized only if
it was copied last, which several workers do not guarantee, so loaded indexes
searched some trees twice and answered differently than before saving.
---
 index/annoyindex_io.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 32bde0b..b30eefe 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -80,14 +80,22 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 		}
 	}
 
-	// hacky fix: since the last root precedes the copy of all roots, delete it
-	if len(idx._roots) > 1 && m > 0 {
-		fn := idx.getNode(idx._roots[0])
-		ln := idx.getNode(idx._roots[len(idx._roots)-1])
+	// hacky fix: since the last root(s) built precedes the copy of all roots, delete those.
+	// The copies are in any order when several workers did build the trees.
+	for last := len(idx._roots) - 1; last > 0; last-- {
+		ln := unsafe.Slice(idx.getNode(idx._roots[last]).GetRawChildren(), 2)
+		copied := false
+
+		for _, i := range idx._roots[:last] {
+			fn := unsafe.Slice(idx.getNode(i).GetRawChildren(), 2)
+			copied = copied || (fn[0] == ln[0] && fn[1] == ln[1])
+		}
 
-		if fn.GetChildren()[0] == ln.GetChildren()[0] {
-			idx._roots = idx._roots[:len(idx._roots)-1]
+		if !copied {
+			break
 		}
+
+		idx._roots = idx._roots[:last]
 	}
 
 	idx.indexBuilt = true
-- 
2.43.0


From 997c46cc4d30be9cacd58a1b1c2789b72fe3491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 07/38] fix: replace the file when saving instead of truncating
 it

Saving to the file the index is loaded from (as after any Save) truncated the
mapping being written, which destroyed the index and its file; other indexes
mapping the file crashed. A failed write lost the previous file as well.
---
 index/annoyindex_io.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index b30eefe..b255a3b 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/utils"
@@ -13,13 +14,26 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
-	file, err := os.Create(fileName)
+	// Never write to the file itself, it may be the one this (or some other) index is mapped onto.
+	if target, err := filepath.EvalSymlinks(fileName); err == nil {
+		fileName = target
+	}
+
+	mode := os.FileMode(0644)
+
+	if stat, err := os.Stat(fileName); err == nil {
+		if !stat.Mode().IsRegular() {
+			return fmt.Errorf("%s is not a regular file", fileName)
+		}
+
+		mode = stat.Mode().Perm()
+	}
+
+	file, err := os.CreateTemp(filepath.Dir(fileName), ".goannoy-*.tmp")
 	if err != nil {
 		return err
 	}
 
-	defer file.Close()
-
 	if idx.logVerbose {
 		fmt.Println("Saving index to file", fileName, "with", idx._n_nodes, "nodes")
 		for i := TIX(0); i < idx._n_nodes; i++ {
@@ -32,7 +46,20 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 
 	_, err = file.Write(data)
 
+	if err2 := file.Close(); err == nil {
+		err = err2
+	}
+
+	if err == nil {
+		err = os.Chmod(file.Name(), mode)
+	}
+
+	if err == nil {
+		err = os.Rename(file.Name(), fileName)
+	}
+
 	if err != nil {
+		os.Remove(file.Name())
 		return err
 	}
 
-- 
2.43.0


From 70c563eabfbbc2f61f8f7a922f0df82b4590232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 08/38] fix: refuse to save an index without trees

The file format has no means to tell items from roots then: all items were taken
for roots when loading and searching followed their norm as a child index.
---
 index/annoyindex_io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index b255a3b..a07f912 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -14,6 +14,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return fmt.Errorf("can't save an index that hasn't been built")
 	}
 
+	if len(idx._roots) == 0 {
+		return fmt.Errorf("can't save an index without any trees")
+	}
+
 	// Never write to the file itself, it may be the one this (or some other) index is mapped onto.
 	if target, err := filepath.EvalSymlinks(fileName); err == nil {
 		fileName = target
-- 
2.43.0


From d402e66ef48895b5d921c5c9fb19bcadff57eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 09/38] fix: a closed index is not built

Save on a closed index overwrote the file with nothing, and the object could not
be filled and built again.
---
 index/annoyindex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 0d61c27..510f487 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -128,6 +128,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Close() error {
 
 	idx._nodes = nil
 	idx.indexLoaded = false
+	idx.indexBuilt = false
 	idx._n_items = 0
 	idx._n_nodes = 0
 	idx._nodes_size = 0
-- 
2.43.0


From 333edebc1d46b9b9fb3c16995e74c88acfeb722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 10/38] fix: refuse to add items to a built index

The item overwrote the tree nodes that follow the items.
---
 index/annoyindex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 510f487..7a55e46 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -152,6 +152,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a loaded index")
 	}
 
+	if idx.indexBuilt {
+		panic("Can't add items to a built index")
+	}
+
 	if idx.vectorLength != TIX(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
-- 
2.43.0


From a570b9c4c5da233ce17fce07f03eee8aaf143eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 11/38] fix: each worker draws from its own random generator

All workers drew from the generator of the index at once, a data race, and the
generator seeded for the worker was never used.
---
 index/annoyindex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 7a55e46..53fcb25 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -368,7 +368,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 		children_indices[0] = nil
 		children_indices[1] = nil
 
-		idx.distance.CreateSplit(children, idx.nodeSize, idx.random, m)
+		idx.distance.CreateSplit(children, idx.nodeSize, rnd, m)
 
 		for _, j := range indices {
 			// TODO: original code did a check: Node* n = _get(j); if (n) {...}
@@ -377,7 +377,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			side := idx.distance.Side(
 				m,
 				n.GetVector(idx.vectorLength),
-				idx.random,
+				rnd,
 			)
 
 			children_indices[side] = append(children_indices[side], j)
@@ -408,7 +408,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 		for _, j := range indices {
 			// Just randomize...
-			side := idx.random.NextSide()
+			side := rnd.NextSide()
 			children_indices[side] = append(children_indices[side], j)
 		}
 	}
-- 
2.43.0


From 5c7c80e4d7b6a64e7298a01e9a926aba4c7796fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 12/38] fix: lock on the policy handed to the worker

Split nodes were added under the locks of the policy of the index while leaf
nodes were added under those of the policy the worker was started with. A policy
that hands its workers another one got no mutual exclusion.
---
 index/annoyindex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 53fcb25..ed0b9a1 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -440,17 +440,17 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 
 	m.SetChildren(child_first)
 
-	idx.buildPolicy.LockNNodes()
+	threadedBuildPolicy.LockNNodes()
 	idx.allocateSize(idx._n_nodes+1, threadedBuildPolicy)
 	item := idx._n_nodes
 	idx._n_nodes++
-	idx.buildPolicy.UnlockNNodes()
+	threadedBuildPolicy.UnlockNNodes()
 
-	idx.buildPolicy.LockSharedNodes()
+	threadedBuildPolicy.LockSharedNodes()
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
-	idx.buildPolicy.UnlockSharedNodes()
+	threadedBuildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
-- 
2.43.0


From 10f853df12b36614bcd30caeb25c4336a40e5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 13/38] fix: build with one worker when zero are asked for

As documented. No worker was started and no tree was built.
---
 index/policy/index_policy_multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/policy/index_policy_multi.go b/index/policy/index_policy_multi.go
index d3528d7..f91dc8e 100644
--- a/index/policy/index_policy_multi.go
+++ b/index/policy/index_policy_multi.go
@@ -27,6 +27,10 @@ func (p *annoyIndexMultiThreadedBuildPolicy) Build(
 		numberOfWorkers = int(utils.Max(uint32(1), uint32(runtime.NumCPU())))
 	}
 
+	if numberOfWorkers == 0 {
+		numberOfWorkers = 1
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(numberOfWorkers)
 
-- 
2.43.0


From 4ef3f81bc54dc1695b54084dfe1e49e79c46a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 14/38] fix: multiply with carry in the KISS generator

The multiplication had become an addition, so the component was a mere counter.
---
 random/kiss32random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 3cfa124..65bcc02 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -40,7 +40,7 @@ func (r *Kiss32Random[TIX]) Next() TIX {
 	r.y ^= r.y >> 17
 	r.y ^= r.y << 5
 
-	t := uint64(698769069) + uint64(r.z) + uint64(r.c)
+	t := uint64(698769069)*uint64(r.z) + uint64(r.c)
 
 	r.c = TIX(t >> 32)
 	r.z = TIX(t)
-- 
2.43.0


From 6384599fdc5683b30a3b8cc666e47866a32f9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 15/38] fix: no NaN distance between parallel vectors

2 - 2cos may be slightly negative due to rounding.
---
 distance/angular/distance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index 59cf15e..e97c253 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -162,7 +162,8 @@ func (a *angularDistanceImpl[TV, TIX]) CreateSplit(
 }
 
 func (a *angularDistanceImpl[TV, _]) NormalizedDistance(distance TV) TV {
-	return TV(math.Sqrt(float64(distance)))
+	// Rounding may put the distance of (almost) parallel vectors just below zero
+	return TV(math.Sqrt(math.Max(float64(distance), 0)))
 }
 
 func (a *angularDistanceImpl[TV, TIX]) PQDistance(distance, margin TV, side interfaces.Side) TV {
-- 
2.43.0


From feac6d9a9fcfe7815328de4599d08a64d48940ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 16/38] fix: dot product distance is the inner product

It was the angular distance, negated when reported.
---
 distance/dotproduct/distance.go | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index 0d635a3..cf489fd 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -150,30 +150,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) PQInitialValue() TV {
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y interfaces.Node[TV, TIX]) TV {
-	pp := x.GetNorm()
-	qq := y.GetNorm()
-	xv := x.GetRawVector()
-	yv := y.GetRawVector()
-
-	if pp == 0 {
-		pp = vector.DotUnsafe(xv, xv, dp.vectorLength)
-	}
-
-	if qq == 0 {
-		qq = vector.DotUnsafe(yv, yv, dp.vectorLength)
-	}
-
-	var ppqq TV
-
-	if pp != 0 {
-		ppqq = pp * qq
-	}
-
-	if ppqq > 0 {
-		pq := vector.DotUnsafe(xv, yv, dp.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
-	}
-	return 2.0
+	return -vector.DotUnsafe(x.GetRawVector(), y.GetRawVector(), dp.vectorLength)
 }
 
 func (dp *dotProductDistanceImpl[TV, TIX]) PreProcess(nodes unsafe.Pointer, node_count TIX) {
-- 
2.43.0


From 72e678f7dc695df6f05618f70762b7ebdc6bb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 17/38] fix: partial sort stays in its range

With more than 20 elements the whole slice was sorted, also what is outside
[begin, end).
---
 sort/partial_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 30dd1fa..9be8240 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -16,7 +16,7 @@ func PartialSortSlice[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	N := middle - begin
 
 	if end-begin > 20 && end-begin < 5000000 {
-		SortPairs(s)
+		SortPairs(s[begin:end])
 		return
 	}
 
-- 
2.43.0


From af83ec0917ab29d3d325dd9771495bdf5c27ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 18/38] fix: GoRandom honours its seed

The source was always seeded by the clock, hence neither a given seed nor
CloneAndReset reproduced anything, and SetSeed was not reflected by GetSeed.
---
 random/gorand.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/random/gorand.go b/random/gorand.go
index b237298..3041a17 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -17,7 +17,7 @@ func NewGoRandom() *GoRandom {
 }
 
 func NewGoRandomWithSeed(seed uint32) *GoRandom {
-	src := rand.NewSource(time.Now().UnixNano())
+	src := rand.NewSource(int64(seed))
 	return &GoRandom{
 		rng:  rand.New(src),
 		seed: seed,
@@ -53,6 +53,7 @@ func (r *GoRandom) GetSeed() uint32 {
 
 func (r *GoRandom) SetSeed(seed uint32) {
 	r.rng.Seed(int64(seed))
+	r.seed = seed
 }
 
 func (r *GoRandom) CloneAndReset() *GoRandom {
-- 
2.43.0


From b31fec2c408e77498b404ddbbc82eb991b1723ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 19/38] fix: 64 bit indexes get a random generator

The builder left it nil for uint64, so Build, Close and Load crashed, and neither
Kiss64Random nor GoRandom implemented the Random interface due to the return
type of CloneAndReset.
---
 builder/index.go       | 3 ++-
 random/gorand.go       | 2 +-
 random/kiss64random.go | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index 7db4da8..ff14d92 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -96,7 +96,8 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 			k := random.NewKiss32Random(uint32(0))
 			bld.random = any(k).(interfaces.Random[TIX]) // Ugly hack to get around type system
 		case uint64:
-			// TODO: Need to completely refactor random!!
+			k := random.NewKiss64Random(0)
+			bld.random = any(k).(interfaces.Random[TIX])
 		}
 	}
 
diff --git a/random/gorand.go b/random/gorand.go
index 3041a17..8b2f4a6 100644
--- a/random/gorand.go
+++ b/random/gorand.go
@@ -56,6 +56,6 @@ func (r *GoRandom) SetSeed(seed uint32) {
 	r.seed = seed
 }
 
-func (r *GoRandom) CloneAndReset() *GoRandom {
+func (r *GoRandom) CloneAndReset() interfaces.Random[uint32] {
 	return NewGoRandomWithSeed(r.seed)
 }
diff --git a/random/kiss64random.go b/random/kiss64random.go
index 28958c6..d143bc0 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -73,6 +73,6 @@ func (r *Kiss64Random) GetSeed() uint64 {
 	return r.seed
 }
 
-func (r *Kiss64Random) CloneAndReset() *Kiss64Random {
+func (r *Kiss64Random) CloneAndReset() interfaces.Random[uint64] {
 	return NewKiss64Random(r.seed)
 }
-- 
2.43.0


From 489abaf2327e37f1991e406b47c47d82a5c3e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 20/38] fix: do not compute byte offsets in the index type

With uint32 they wrapped around at 4 GiB and items overlapped.
---
 distance/angular/distance.go    | 2 +-
 distance/dotproduct/distance.go | 2 +-
 index/annoyindex.go             | 4 ++--
 index/annoyindex_io.go          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index e97c253..e5219ee 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -53,7 +53,7 @@ func (a *angularDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*a.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(a.nodeSize))
 
 	return (*AngularNodeImpl[TV, TIX])(pos)
 }
diff --git a/distance/dotproduct/distance.go b/distance/dotproduct/distance.go
index cf489fd..c6a60d7 100644
--- a/distance/dotproduct/distance.go
+++ b/distance/dotproduct/distance.go
@@ -53,7 +53,7 @@ func (dp *dotProductDistanceImpl[TV, TIX]) MapNodeToMemory(
 	mem unsafe.Pointer,
 	itemIndex TIX,
 ) interfaces.Node[TV, TIX] {
-	pos := unsafe.Add(mem, itemIndex*dp.nodeSize)
+	pos := unsafe.Add(mem, uintptr(itemIndex)*uintptr(dp.nodeSize))
 
 	return (*DotProductNodeImpl[TV, TIX])(pos)
 }
diff --git a/index/annoyindex.go b/index/annoyindex.go
index ed0b9a1..4c2c6b4 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -107,7 +107,7 @@ func New[
 
 	// Pre-allocate memory for the index if hintNumIndexes is set > 0
 	if hintNumIndexes > 0 {
-		allocator.Reallocate(int(float64(distance.NodeSize()*hintNumIndexes) * reallocation_factor))
+		allocator.Reallocate(int(float64(distance.NodeSize()) * float64(hintNumIndexes) * reallocation_factor))
 	}
 
 	return index
@@ -479,7 +479,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) allocateSize(
 		}
 
 		new_node_size := utils.Max(numNodes, TIX(float64(idx._nodes_size+1)*reallocation_factor))
-		idx._nodes = idx.allocator.Reallocate(int(new_node_size * idx.nodeSize))
+		idx._nodes = idx.allocator.Reallocate(int(new_node_size) * int(idx.nodeSize))
 		idx._nodes_size = new_node_size
 
 		if threadedBuildPolicy != nil {
diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index a07f912..1b668a6 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -46,7 +46,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		}
 	}
 
-	data := unsafe.Slice((*byte)(idx._nodes), idx._n_nodes*idx.nodeSize)
+	data := unsafe.Slice((*byte)(idx._nodes), uint64(idx._n_nodes)*uint64(idx.nodeSize))
 
 	_, err = file.Write(data)
 
@@ -90,7 +90,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 
 	idx._nodes = idx.indexMemory.Ptr()
 	idx._roots = nil
-	idx._n_nodes = TIX(idx.indexMemory.Size()) / idx.nodeSize
+	idx._n_nodes = TIX(idx.indexMemory.Size() / int64(idx.nodeSize))
 
 	var (
 		mset bool
-- 
2.43.0


From 19eb9bf045326665f8324677b41b5f2e14d9ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 21/38] fix: closing an allocation forgets only that allocation

A file opened twice was no longer found once the first one was closed.
---
 index/memory/index_allocator_gcmem.go | 4 +++-
 index/memory/index_allocator_mmap.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 76c0244..211ba91 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -31,7 +31,9 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
-	delete(fi.parent.indexes, fi.fqFile)
+	if fi.parent.indexes[fi.fqFile] == fi {
+		delete(fi.parent.indexes, fi.fqFile)
+	}
 
 	fi.data = nil
 	fi.ptr = nil
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index aa320df..f481023 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -31,7 +31,9 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
-	delete(mi.parent.indexes, mi.fqFile)
+	if mi.parent.indexes[mi.fqFile] == mi {
+		delete(mi.parent.indexes, mi.fqFile)
+	}
 
 	var err error
 
-- 
2.43.0


From eb4bc836a0d1c0626443e45e154bd9e1c5b50d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 22/38] fix: opening an empty file is an error, not a panic

---
 index/memory/index_allocator_gcmem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 211ba91..62c25a7 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -66,6 +66,10 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		return nil, err
 	}
 
+	if fileInfo.Size() == 0 {
+		return nil, fmt.Errorf("%s is empty", fqFile)
+	}
+
 	data := make([]byte, fileInfo.Size())
 
 	var bytesRead int64
-- 
2.43.0


From 1d44ba268f3f1c07d282a86795232d165f78bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 23/38] fix: failing to read an index file is an error, not a
 panic

Such as when loading a directory.
---
 index/memory/index_allocator_gcmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 62c25a7..2781390 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -77,7 +77,7 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 	for bytesRead < fileInfo.Size() {
 		n, err := io.ReadFull(file, data[bytesRead:])
 		if err != nil && err != io.ErrUnexpectedEOF {
-			panic(fmt.Sprintf("Failed to read file: %v", err))
+			return nil, fmt.Errorf("failed to read file: %w", err)
 		}
 		bytesRead += int64(n)
 	}
-- 
2.43.0


From 2864274a0532abfb67fd7da64869bd42062b4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 24/38] fix: indexes made by one builder do not share memory

The second index got the build allocator of the first one, both then wrote their
items to the same block.
---
 builder/index.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/index.go b/builder/index.go
index ff14d92..8a49f60 100644
--- a/builder/index.go
+++ b/builder/index.go
@@ -80,8 +80,11 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.buildPolicy = policy.SingleWorker()
 	}
 
-	if bld.allocator == nil {
-		bld.allocator = memory.GoGCIndexAllocator()
+	// Never share the memory of one index with the next one built
+	allocator := bld.allocator
+
+	if allocator == nil {
+		allocator = memory.GoGCIndexAllocator()
 	}
 
 	if bld.indexMemoryAllocator == nil {
@@ -105,7 +108,7 @@ func (bld *AnnoyIndexBuilderImpl[TV, TIX]) Build() interfaces.AnnoyIndex[TV, TIX
 		bld.random,
 		bld.distance,
 		bld.buildPolicy,
-		bld.allocator,
+		allocator,
 		bld.indexMemoryAllocator,
 		bld.sorter,
 		bld.logVerbose,
-- 
2.43.0


From a72d2bc44ce113a1ddfb783f644152314b9c1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 25/38] fix: file allocators may be used by several indexes at
 once

The indexes of one builder share them, loading two in parallel was a concurrent
map write.
---
 index/memory/index_allocator_gcmem.go | 12 ++++++++++++
 index/memory/index_allocator_mmap.go  | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/index/memory/index_allocator_gcmem.go b/index/memory/index_allocator_gcmem.go
index 2781390..742db2c 100644
--- a/index/memory/index_allocator_gcmem.go
+++ b/index/memory/index_allocator_gcmem.go
@@ -4,12 +4,14 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 )
 
 type fileIndexerAllocator struct {
+	mutex   sync.Mutex
 	indexes map[string]*fileIndexAllocation
 }
 
@@ -31,10 +33,14 @@ func (fi *fileIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (fi *fileIndexAllocation) Close() error {
+	fi.parent.mutex.Lock()
+
 	if fi.parent.indexes[fi.fqFile] == fi {
 		delete(fi.parent.indexes, fi.fqFile)
 	}
 
+	fi.parent.mutex.Unlock()
+
 	fi.data = nil
 	fi.ptr = nil
 
@@ -48,6 +54,9 @@ func FileIndexMemoryAllocator() *fileIndexerAllocator {
 }
 
 func (mm *fileIndexerAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -95,6 +104,9 @@ func (mm *fileIndexerAllocator) Open(fqFile string) (interfaces.AllocatedIndex,
 		data:   data,
 	}
 
+	mm.mutex.Lock()
 	mm.indexes[fqFile] = fi
+	mm.mutex.Unlock()
+
 	return fi, nil
 }
diff --git a/index/memory/index_allocator_mmap.go b/index/memory/index_allocator_mmap.go
index f481023..1e77634 100644
--- a/index/memory/index_allocator_mmap.go
+++ b/index/memory/index_allocator_mmap.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"unsafe"
 
@@ -9,6 +10,7 @@ import (
 )
 
 type mmapIndexAllocator struct {
+	mutex   sync.Mutex
 	indexes map[string]*mmapIndexAllocation
 }
 
@@ -31,10 +33,14 @@ func (mi *mmapIndexAllocation) Size() int64 {
 
 // Implements `io.Closer` interface
 func (mi *mmapIndexAllocation) Close() error {
+	mi.parent.mutex.Lock()
+
 	if mi.parent.indexes[mi.fqFile] == mi {
 		delete(mi.parent.indexes, mi.fqFile)
 	}
 
+	mi.parent.mutex.Unlock()
+
 	var err error
 
 	if mi.data != nil {
@@ -61,6 +67,9 @@ func MmapIndexAllocator() *mmapIndexAllocator {
 }
 
 func (mm *mmapIndexAllocator) Get(fqFile string) (interfaces.AllocatedIndex, bool) {
+	mm.mutex.Lock()
+	defer mm.mutex.Unlock()
+
 	index, ok := mm.indexes[fqFile]
 	return index, ok
 }
@@ -101,6 +110,9 @@ func (mm *mmapIndexAllocator) Open(fqFile string) (interfaces.AllocatedIndex, er
 		data:   data,
 	}
 
+	mm.mutex.Lock()
 	mm.indexes[fqFile] = mi
+	mm.mutex.Unlock()
+
 	return mi, nil
 }
-- 
2.43.0


From 60d11cac83366accaa60c034ca1de1e22944f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 26/38] fix: asking for all neighbours does not overflow the
 budget

---
 index/annoyindex_search.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 00e274d..18ad5fe 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -86,7 +86,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	q := sort.NewPriorityQueue[TV, TIX]()
 
 	if numNodesToInspect == -1 {
-		numNodesToInspect = numReturn * len(idx._roots)
+		// No tree has more than _n_items to inspect (and the product has to fit in an int)
+		perTree := numReturn
+		if perTree > 0 && uint64(perTree) > uint64(idx._n_items) {
+			perTree = int(idx._n_items)
+		}
+
+		numNodesToInspect = perTree * len(idx._roots)
 	}
 
 	// The queue yields its smallest element first, hence all priorities are negated to
-- 
2.43.0


From 484a995619baf55d03d2840b649d4e84f2f6e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 27/38] fix: verbose logging does not read nodes without the
 lock

---
 index/annoyindex.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 4c2c6b4..19d4ade 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -338,12 +338,12 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 			m.SetChildren(children)
 		}
 
-		threadedBuildPolicy.UnlockSharedNodes()
-
 		if idx.logVerbose {
 			fmt.Printf("added 1:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, m))
 		}
 
+		threadedBuildPolicy.UnlockSharedNodes()
+
 		return item
 	}
 
@@ -450,12 +450,13 @@ func (idx *AnnoyIndexImpl[TV, TIX]) makeTree(
 	dst := idx.getNode(item)
 
 	utils.CopyNode(dst, m, idx.nodeSize)
-	threadedBuildPolicy.UnlockSharedNodes()
 
 	if idx.logVerbose {
 		fmt.Printf("added 2:node[item=%d] - %s\n", item, utils.DumpNode(idx.distance, dst))
 	}
 
+	threadedBuildPolicy.UnlockSharedNodes()
+
 	return item
 }
 
-- 
2.43.0


From f07b8d50c54ecbe2e883218565dbceada86e1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 28/38] fix: failing to open the saved file keeps the index in
 memory

---
 index/annoyindex_io.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 1b668a6..5cfe8c1 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -6,6 +6,7 @@ import (
 	"path/filepath"
 	"unsafe"
 
+	"github.com/mariotoffia/goannoy/interfaces"
 	"github.com/mariotoffia/goannoy/utils"
 )
 
@@ -67,21 +68,33 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		return err
 	}
 
-	return idx.Load(fileName)
+	// Keep what there is in memory until the saved file is open
+	memory, err := idx.indexMemoryAllocator.Open(fileName)
+	if err != nil {
+		return err
+	}
+
+	idx.Close()
+
+	return idx.attach(fileName, memory)
 }
 
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
 
-	var err error
-
-	idx.indexMemory, err = idx.indexMemoryAllocator.Open(fileName)
-
+	memory, err := idx.indexMemoryAllocator.Open(fileName)
 	if err != nil {
 		return err
 	}
 
+	return idx.attach(fileName, memory)
+}
+
+// attach makes the memory of an opened file the index.
+func (idx *AnnoyIndexImpl[TV, TIX]) attach(fileName string, memory interfaces.AllocatedIndex) error {
+	idx.indexMemory = memory
+
 	if idx.indexMemory.Size()%int64(idx.nodeSize) != 0 {
 		idx.Close()
 
-- 
2.43.0


From 1ad8290d0b6d5a498314b4ee5ad5bb5aac7d757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 29/38] fix: tell the roots of a file from their copies by
 counting

---
 index/annoyindex_io.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 5cfe8c1..dd10f6a 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -124,22 +124,18 @@ func (idx *AnnoyIndexImpl[TV, TIX]) attach(fileName string, memory interfaces.Al
 		}
 	}
 
-	// hacky fix: since the last root(s) built precedes the copy of all roots, delete those.
-	// The copies are in any order when several workers did build the trees.
-	for last := len(idx._roots) - 1; last > 0; last-- {
-		ln := unsafe.Slice(idx.getNode(idx._roots[last]).GetRawChildren(), 2)
-		copied := false
-
-		for _, i := range idx._roots[:last] {
-			fn := unsafe.Slice(idx.getNode(i).GetRawChildren(), 2)
-			copied = copied || (fn[0] == ln[0] && fn[1] == ln[1])
-		}
+	// hacky fix: since the last root(s) built precedes the copy of all roots, delete those. No
+	// other node has as many descendants as the roots, and each of them is there twice.
+	trees := 0
 
-		if !copied {
-			break
+	for i := m; i < idx._n_nodes; i++ {
+		if idx.getNode(i).GetNumberOfDescendants() == m {
+			trees++
 		}
+	}
 
-		idx._roots = idx._roots[:last]
+	if trees /= 2; trees > 0 && trees < len(idx._roots) {
+		idx._roots = idx._roots[:trees]
 	}
 
 	idx.indexBuilt = true
-- 
2.43.0


From 10a7b0a60eefd5b659d51aff5353fc42e7e27dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 30/38] fix: setting the seed restarts the KISS generators

---
 random/kiss32random.go | 3 +--
 random/kiss64random.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/random/kiss32random.go b/random/kiss32random.go
index 65bcc02..e9e1f74 100644
--- a/random/kiss32random.go
+++ b/random/kiss32random.go
@@ -64,8 +64,7 @@ func (r *Kiss32Random[TIX]) NextIndex(n TIX) TIX {
 }
 
 func (r *Kiss32Random[TIX]) SetSeed(seed TIX) {
-	r.x = seed
-	r.seed = seed
+	*r = *NewKiss32Random(seed)
 }
 
 func (r *Kiss32Random[TIX]) GetSeed() TIX {
diff --git a/random/kiss64random.go b/random/kiss64random.go
index d143bc0..b74aacc 100644
--- a/random/kiss64random.go
+++ b/random/kiss64random.go
@@ -65,8 +65,7 @@ func (r *Kiss64Random) NextIndex(n uint64) uint64 {
 }
 
 func (r *Kiss64Random) SetSeed(seed uint64) {
-	r.x = seed
-	r.seed = seed
+	*r = *NewKiss64Random(seed)
 }
 
 func (r *Kiss64Random) GetSeed() uint64 {
-- 
2.43.0


From 4173bc9ee7128480261124f37c57e59463499f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 31/38] fix: PartialSortSlice2 leaves invalid ranges alone

---
 sort/partial_sort.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sort/partial_sort.go b/sort/partial_sort.go
index 9be8240..3c908e5 100644
--- a/sort/partial_sort.go
+++ b/sort/partial_sort.go
@@ -52,6 +52,10 @@ func PartialSortSlice2[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 	s interfaces.Pairs[TV, TIX],
 	begin, middle, end int,
 ) {
+	if begin >= end || middle <= begin || middle > end {
+		return
+	}
+
 	beginMiddle := middle - begin
 
 	if beginMiddle >= s.Len() {
@@ -59,10 +63,6 @@ func PartialSortSlice2[TV interfaces.VectorType, TIX interfaces.IndexTypes](
 		return
 	}
 
-	if begin >= end || middle <= begin || middle > end {
-		return
-	}
-
 	buildMaxHeap(s[begin:middle], beginMiddle)
 
 	for i := middle; i < end; i++ {
-- 
2.43.0


From 887f66619baafb1292980333b8307daec07a6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 32/38] fix: Round rounds values next to a half to the nearer
 number

---
 utils/math.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index d861edb..74e2024 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -45,7 +45,12 @@ func Intersection[TIX interfaces.IndexTypes](a, b []TIX) []TIX {
 }
 
 func Round(f float64) float64 {
-	return math.Floor(f + 0.5)
+	// Adding 0.5 before taking the floor is not exact for all values
+	r := math.Floor(f)
+	if f-r >= 0.5 {
+		r++
+	}
+	return r
 }
 
 func RoundPlus(f float64, places int) float64 {
-- 
2.43.0


From 1447516f41f127de0bf8f73a48d32bf618298c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 33/38] fix: a sorter is never given a negative range

As when asking for less than no neighbours.
---
 index/annoyindex_search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 18ad5fe..26b6041 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -201,6 +201,10 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 		middle = cnt
 	}
 
+	if middle < 0 {
+		middle = 0
+	}
+
 	idx.sorter.PartialSortSlice(nns_dist, 0, middle, len(nns_dist))
 
 	for i := 0; i < middle; i++ {
-- 
2.43.0


From d24486214dabc24dd31ea36cfa5c8d7751633754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:45 +0000
Subject: [PATCH 34/38] fix: distances of very long or short vectors do not
 overflow

---
 distance/angular/distance.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index e5219ee..e3fec34 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -91,15 +91,16 @@ func (a *angularDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y in
 		qq = vector.DotUnsafe(yv, yv, a.vectorLength)
 	}
 
-	var ppqq TV
+	var ppqq float64
 
 	if pp != 0 {
-		ppqq = pp * qq
+		// The product of two squared norms may not fit in a TV
+		ppqq = float64(pp) * float64(qq)
 	}
 
 	if ppqq > 0 {
 		pq := vector.DotUnsafe(xv, yv, a.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(float64(ppqq)))
+		return 2.0 - 2.0*pq/TV(math.Sqrt(ppqq))
 	}
 	return 2.0
 }
-- 
2.43.0


From 4e83c32595a9e6a3b8047c88498c6885dedf5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:33 +0000
Subject: [PATCH 35/38] fix: a save no longer picks up what another index saved
 to the same file at the same time

---
 index/annoyindex_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index dd10f6a..648e1c9 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -4,12 +4,17 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sync"
 	"unsafe"
 
 	"github.com/mariotoffia/goannoy/interfaces"
 	"github.com/mariotoffia/goannoy/utils"
 )
 
+// replacing is held from when a saved file takes its place until it is open, so that no other
+// index, saved to the same file at the same time, gets in between.
+var replacing sync.Mutex
+
 func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	if !idx.indexBuilt {
 		return fmt.Errorf("can't save an index that hasn't been built")
@@ -59,6 +64,9 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 		err = os.Chmod(file.Name(), mode)
 	}
 
+	replacing.Lock()
+	defer replacing.Unlock()
+
 	if err == nil {
 		err = os.Rename(file.Name(), fileName)
 	}
-- 
2.43.0


From 20bc97c8771ab1cff668e84c527351231a121a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:16 +0000
Subject: [PATCH 36/38] fix: a save through a symbolic link to a file that does
 not exist yet creates that file

---
 index/annoyindex_io.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/index/annoyindex_io.go b/index/annoyindex_io.go
index 648e1c9..167f51b 100644
--- a/index/annoyindex_io.go
+++ b/index/annoyindex_io.go
@@ -25,9 +25,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	}
 
 	// Never write to the file itself, it may be the one this (or some other) index is mapped onto.
-	if target, err := filepath.EvalSymlinks(fileName); err == nil {
-		fileName = target
-	}
+	fileName = linkTarget(fileName)
 
 	mode := os.FileMode(0644)
 
@@ -87,6 +85,28 @@ func (idx *AnnoyIndexImpl[TV, TIX]) Save(fileName string) error {
 	return idx.attach(fileName, memory)
 }
 
+// linkTarget gives the file that a symbolic link leads to, which need not exist.
+func linkTarget(fileName string) string {
+	for i := 0; i < 255; i++ {
+		if target, err := filepath.EvalSymlinks(fileName); err == nil {
+			return target
+		}
+
+		target, err := os.Readlink(fileName)
+		if err != nil {
+			break
+		}
+
+		if !filepath.IsAbs(target) {
+			target = filepath.Dir(fileName) + string(filepath.Separator) + target
+		}
+
+		fileName = target
+	}
+
+	return fileName
+}
+
 func (idx *AnnoyIndexImpl[TV, TIX]) Load(fileName string) error {
 	// Close any existing index and free resources
 	idx.Close()
-- 
2.43.0


From 4e713a2b5d90cdf2bd39dcc00af63bd6eb972f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:23 +0000
Subject: [PATCH 37/38] fix: angular distances of very long or short float64
 vectors do not overflow

---
 distance/angular/distance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/distance/angular/distance.go b/distance/angular/distance.go
index e3fec34..490c936 100644
--- a/distance/angular/distance.go
+++ b/distance/angular/distance.go
@@ -91,16 +91,18 @@ func (a *angularDistanceImpl[TV, TIX]) Distance(x interfaces.Node[TV, TIX], y in
 		qq = vector.DotUnsafe(yv, yv, a.vectorLength)
 	}
 
-	var ppqq float64
+	// The product of two squared norms may not fit in a TV
+	ppqq := float64(pp) * float64(qq)
+	norms := math.Sqrt(ppqq)
 
-	if pp != 0 {
-		// The product of two squared norms may not fit in a TV
-		ppqq = float64(pp) * float64(qq)
+	if ppqq < 0x1p-1000 || ppqq > math.MaxFloat64 {
+		// Nor in a float64
+		norms = math.Sqrt(float64(pp)) * math.Sqrt(float64(qq))
 	}
 
-	if ppqq > 0 {
+	if norms > 0 {
 		pq := vector.DotUnsafe(xv, yv, a.vectorLength)
-		return 2.0 - 2.0*pq/TV(math.Sqrt(ppqq))
+		return 2.0 - 2.0*(pq/TV(norms))
 	}
 	return 2.0
 }
-- 
2.43.0


From 5c74e352ed5d35ea3a83b8b9b5166939e5e33298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:25 +0000
Subject: [PATCH 38/38] fix: a vector of 2^32 elements too many is refused
 without leaving an item behind

---
 index/annoyindex.go        | 2 +-
 index/annoyindex_search.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/annoyindex.go b/index/annoyindex.go
index 19d4ade..c7c86c0 100644
--- a/index/annoyindex.go
+++ b/index/annoyindex.go
@@ -156,7 +156,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) AddItem(itemIndex TIX, v []TV) {
 		panic("Can't add items to a built index")
 	}
 
-	if idx.vectorLength != TIX(len(v)) {
+	if uint64(idx.vectorLength) != uint64(len(v)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(v)))
 	}
 
diff --git a/index/annoyindex_search.go b/index/annoyindex_search.go
index 26b6041..8c51d7f 100644
--- a/index/annoyindex_search.go
+++ b/index/annoyindex_search.go
@@ -78,7 +78,7 @@ func (idx *AnnoyIndexImpl[TV, TIX]) GetNnsByVector(
 	numReturn, numNodesToInspect int,
 	ctx interfaces.AnnoyIndexContext[TV, TIX],
 ) (result []TIX, distances []TV) {
-	if idx.vectorLength != TIX(len(vector)) {
+	if uint64(idx.vectorLength) != uint64(len(vector)) {
 		panic(fmt.Sprintf("Vector length mismatch: %d != %d", idx.vectorLength, len(vector)))
 	}
 
-- 
2.43.0

