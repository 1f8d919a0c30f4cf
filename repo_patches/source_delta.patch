From 8a588b513bf4ce228370c19c5f9a08201df1a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 01/12] fix: release the locks when UnAlias fails

UnAlias returned with a lock held when the index or the alias did not exist,
so that a later call waited for ever.
---
 repos_repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..3fa195f 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -112,12 +112,14 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	// only remove an index-alias association
 	h.indicesMu.RLock()
 	if _, ok := h.indices[index]; !ok {
+		h.indicesMu.RUnlock()
 		return false
 	}
 	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
 	indices, ok := h.aliases[alias]
 	if !ok {
+		h.aliasesMu.Unlock()
 		return false
 	}
 	// alias already exists, check if already has the index
-- 
2.43.0


From e37bd7e59391f116701bd550e1130aba2027757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 02/12] fix: UnAlias removes an alias left empty and reports
 what it did

Detaching the last index left an alias that denotes nothing: a document put
through it was lost. Detaching an index that was not attached reported success.
---
 repos_repo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 3fa195f..833c846 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -130,11 +130,14 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	removed := len(newIndices) != len(indices)
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if removed {
 		h.aliases[alias] = newIndices
 	}
 	h.aliasesMu.Unlock()
-	return true
+	return removed
 }
 
 // Rename handles index renaming
-- 
2.43.0


From aa2d3c3ad7b38923412f598a3978b6ab2afda481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 03/12] fix: renaming an index to its own name keeps it

Rename(x, x) deleted the index and left its aliases pointing at nothing.
---
 repos_repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 833c846..1de5e00 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -149,6 +149,10 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		h.indicesMu.Unlock()
 		return false
 	}
+	if old == new {
+		h.indicesMu.Unlock()
+		return true
+	}
 	// 2. Perform the swap
 	h.indices[new] = index
 	delete(h.indices, old)
-- 
2.43.0


From f905057de354e591b75643f954e05bfcf7635ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 04/12] fix: Rename updates aliases under their lock and
 attaches no index twice

Rename wrote to the aliases without holding aliasesMu, racing with readers, and
renaming onto an index attached to the same alias listed that index twice.
---
 repos_repo.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 1de5e00..fcdd273 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -157,13 +157,25 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
-	for _, indices := range h.aliases {
-		for i, indexName := range indices {
+	h.aliasesMu.Lock()
+	for alias, indices := range h.aliases {
+		seen := false
+		var newIndices []string
+		for _, indexName := range indices {
 			if indexName == old {
-				indices[i] = new
+				indexName = new
 			}
+			if indexName == new {
+				if seen {
+					continue
+				}
+				seen = true
+			}
+			newIndices = append(newIndices, indexName)
 		}
+		h.aliases[alias] = newIndices
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From a48b2a424012a8ed4cae09e87690cd73435a0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 05/12] fix: Put looks an index up and writes to it under one
 lock

Two first puts to a name could both find it unused and the second index replaced
the first, losing its document; a put could also write to an index dropped or
renamed in between.
---
 repos_repo.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index fcdd273..b65ac0b 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -235,8 +235,8 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
@@ -301,12 +301,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices must be called with indicesMu held
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -314,14 +313,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From be9d249848b1b8a8cd7be33a688d9821dad800d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 06/12] fix: Drop checks and drops under one lock

Two concurrent drops of an index both reported success, and a drop overtaken by
a rename reported success without dropping anything.
---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index b65ac0b..ce401e3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -259,14 +259,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From 74ae04ab913b6ffde936523cdec10b1a6ae8e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 07/12] fix: ListAliases returns copies

The rows shared memory with the repository, so that later calls changed a list
already returned, racing with its reader, and writing to a list changed aliases.
---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index ce401e3..1d63f68 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -292,7 +292,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From 10887bb8b7631a59777e63e3dbea3359b7a60aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 08/12] fix: search through an alias returns results in a fixed
 order

The results of several indices were appended in the order in which their
goroutines happened to end.
---
 repos_repo.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 1d63f68..22bb673 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -215,22 +215,22 @@ func (h *IndexRepo) Search(
 	}
 
 	var (
-		wg     sync.WaitGroup
-		result slices.Slice[SearchResult]
+		wg      sync.WaitGroup
+		result  slices.Slice[SearchResult]
+		results = make([]slices.Slice[SearchResult], len(indices))
 	)
 	wg.Add(len(indices))
 
-	rl := new(sync.Mutex)
-	for _, index := range indices {
-		go func(idx Index) {
+	for i, index := range indices {
+		go func(i int, idx Index) {
 			defer wg.Done()
-			sr := idx.Search(terms, engine)
-			rl.Lock()
-			result.AppendVector(sr)
-			rl.Unlock()
-		}(index)
+			results[i] = idx.Search(terms, engine)
+		}(i, index)
 	}
 	wg.Wait()
+	for _, sr := range results {
+		result.AppendVector(sr)
+	}
 	return streams.MemReader(result, nil), nil
 }
 
-- 
2.43.0


From 2e0e24cbf0fac034e3c1de5f150f1686ff268e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 09/12] fix: HitsSearch tells documents with the same ID apart

Hits were counted per document ID, so that documents sharing one matched on each
other's words, and the first of them was returned once for each.
---
 search_hits_search.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..3c37f34 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,9 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (using document index as key, as
+	// several documents may share an ID)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -58,17 +59,14 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
-			doc := indexer.Document(index)
-			hashKey := doc.Hash()
-
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
-					Document: doc,
+				docHits[index] = SearchResult{
+					Document: indexer.Document(index),
 					Hits:     1,
 				}
 			}
@@ -81,11 +79,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0


From 70a14cfe98fd5c6fd0728dbcb4f8903787227d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 10/12] fix: HitsSearch counts a repeated search token once

The hit count is documented as the number of unique search tokens found.
---
 search_hits_search.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/search_hits_search.go b/search_hits_search.go
index 3c37f34..d6fdeb6 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -41,6 +41,17 @@ import (
 //
 //	"java java programming" with query "java programming" = 2 hits (not 3)
 func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
+	// Count each unique token once
+	seen := make(map[string]struct{}, len(tokens))
+	unique := make([]string, 0, len(tokens))
+	for _, token := range tokens {
+		if _, ok := seen[token]; !ok {
+			seen[token] = struct{}{}
+			unique = append(unique, token)
+		}
+	}
+	tokens = unique
+
 	// Set threshold to number of tokens - implements AND logic
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
-- 
2.43.0


From b40a135dc3a96aedd38e31065d4e494888f4e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 11/12] fix: HitsSearch keeps document order for ties

Ties are documented to be in document order and were sorted by document ID.
---
 search_hits_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index d6fdeb6..a2c4eef 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -97,7 +97,9 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	}
 
 	// Phase 3: Sort by relevance (hit count descending, then by document order for ties)
-	sort.Sort(results)
+	sort.SliceStable(results, func(i, j int) bool {
+		return results[i].Hits > results[j].Hits
+	})
 
 	return slices.Slice[SearchResult](results)
 }
-- 
2.43.0


From 6b6a3bb1498580f57efc21e09d1bf918f7e495bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 12/12] fix: R1R2RV finds RV in words that have no R1

RV does not depend on R1, but was left empty for words such as "trae" or "creo".
---
 stemmer_spanish_snowball.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stemmer_spanish_snowball.go b/stemmer_spanish_snowball.go
index a78d696..ec590c8 100644
--- a/stemmer_spanish_snowball.go
+++ b/stemmer_spanish_snowball.go
@@ -49,9 +49,6 @@ func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
 			foundVowel = true
 		}
 	}
-	if r1 == nil {
-		return
-	}
 	// R2
 	foundVowel = false
 	foundNonVowel = false
-- 
2.43.0

