From c6404c33fd5a431e7bf7cfaa62ff2c14d2b7d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:26 +0000
Subject: [PATCH 01/16] fix: UtfcDecode consumes a byte after the single zero
 marker in 21-bit mode

In 21-bit mode the encoder writes a code point whose low 15 bits are zero
(U+2600, U+A600, ...) as marker0 alone, but the decoder still read a second
byte: "\u2601\u2600" panicked and "\u2601\u2600x" decoded to something else.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..0b92749 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From 80dbcdd7f689b009b74b773ae79b93af95d5b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:26 +0000
Subject: [PATCH 02/16] fix: a leaf unit can be mistaken for a labelled
 transition

dictLabel truncated the leaf bit away, so Follow stepped onto the unit holding
a value whose low byte happened to equal the label: with the single key
"\x01"=258 ContainsString("\x02") was true.
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From d555e82dc43ba0c3324c2bfaf18e7ce32b144acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:26 +0000
Subject: [PATCH 03/16] fix: reject keys and values a dawg cannot represent

A negative value came back as a different positive one (-5 as 2147483643) and
a key with a zero byte was accepted but stored as a different key ("a\x00b"
made "a" a key). The original dawgdic rejects both.
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..30130d4 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Values are stored in 31 bits and the zero label terminates keys.
+	if value < 0 {
+		return false
+	}
+	for i := 0; i < length; i += 1 {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From e89bc6050a9f04a8fb7dd5656b56ab7a58ccfa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:27 +0000
Subject: [PATCH 04/16] fix: a DawgBuilder cannot be reused after Finish

clear left a one-element hash table behind, so the next Insert skipped init and
panicked indexing the empty unit pool.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 30130d4..59113f8 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = db.hashTable[:0]
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From 09d692951727f98945159f5f1f4cb3e30be0b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:27 +0000
Subject: [PATCH 05/16] fix: completion from the root never ends when the empty
 key is present

Next used lastIndex == root to mean "not started", but the root itself is the
last index after the empty key has been found.
---
 completer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/completer.go b/completer.go
index 7099901..35da384 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	isStarted  bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -49,9 +50,10 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 	c.path[length] = 0
 
 	c.indexStack = c.indexStack[:0]
+	c.lastIndex = c.dict.Root()
+	c.isStarted = false
 	if c.guide.size != 0 {
 		c.indexStack = append(c.indexStack, index)
-		c.lastIndex = c.dict.Root()
 	}
 }
 
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.isStarted {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -125,5 +127,6 @@ func (c *Completer) FindTerminal(index baseType) bool {
 	}
 
 	c.lastIndex = index
+	c.isStarted = true
 	return true
 }
-- 
2.43.0


From 432fd010346a78b0d79386b2622ca5200e5f5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 06/16] fix: completer keys end in a zero byte

The path keeps a C-style terminator that Length already leaves out; Key returned
it as part of the string, so no completed key could be looked up again.
---
 completer.go        | 2 +-
 ranked_completer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/completer.go b/completer.go
index 35da384..d383848 100644
--- a/completer.go
+++ b/completer.go
@@ -29,7 +29,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return string(c.path[:len(c.path)-1])
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..5978ccc 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -27,7 +27,7 @@ func NewRankedCompleter(dict *Dictionary, guide *RankedGuide) *RankedCompleter {
 }
 
 func (rc *RankedCompleter) Key() string {
-	return string(rc.path)
+	return string(rc.path[:len(rc.path)-1])
 }
 
 func (rc *RankedCompleter) Value() valueType {
-- 
2.43.0


From 99a32409445a7e5f385e0be715b1c92cf6339702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 07/16] fix: a failed Index.Read destroys the index

Unlike the other readers it replaced the units before reading them.
---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From 9700377996f2bc1b0f82252192f05b96393f0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 08/16] fix: UtfcEncode results overwrite each other

Every call returned the same package-level buffer (and used one package-level
state), so the comparator of dawgtool -s -u compared a string with itself and
concurrent calls raced.
---
 utfc.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/utfc.go b/utfc.go
index 0b92749..88cde04 100644
--- a/utfc.go
+++ b/utfc.go
@@ -123,12 +123,6 @@ func getAuxOffset(offs int) int {
 	return offs
 }
 
-// Note: thread-unsafe
-var sharedState UtfcState
-var sharedBuffer = &byteBuffer{
-	buf: make([]byte, 0, 1024),
-}
-
 func NewUtfcState() *UtfcState {
 	return &UtfcState{
 		offs:    0,
@@ -289,9 +283,10 @@ func (st *UtfcState) Follow(ch rune, f UtfcFollower) bool {
 // Returns true if process was completed successfully, false otherwise
 // Allows to abort encoding early and prevent unneeded memory allocations
 func UtfcFollow(str string, f UtfcFollower) bool {
-	sharedState.Clear()
+	var state UtfcState
+	state.Clear()
 	for _, ch := range str {
-		if !sharedState.Follow(ch, f) {
+		if !state.Follow(ch, f) {
 			return false
 		}
 	}
@@ -300,9 +295,11 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 
 // UtfcEncode converts string to an UTF-C byte array
 func UtfcEncode(str string) []byte {
-	sharedBuffer.buf = sharedBuffer.buf[:0]
-	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	buffer := &byteBuffer{
+		buf: make([]byte, 0, len(str)),
+	}
+	UtfcFollow(str, buffer)
+	return buffer.buf
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From 9fabf8389cc6ef3af3c2b64c8e339a1adbc989dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:29 +0000
Subject: [PATCH 09/16] fix: indexing an empty dictionary panics

The guide of an empty dictionary has no units, as the completers know; the index
builder and the indexer read its root unit all the same.
---
 index_builder.go | 3 +++
 indexer.go       | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..bb909b8 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,9 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..46fd628 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,10 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
+
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +70,10 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
+
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From 42a6c94fb634febab344d95a53b9b0a60e29c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:29 +0000
Subject: [PATCH 10/16] fix: Dawg.Clear keeps two of the four counters

---
 dawg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dawg.go b/dawg.go
index 9c0d866..75067a3 100644
--- a/dawg.go
+++ b/dawg.go
@@ -87,5 +87,7 @@ func (dawg *Dawg) Clear() {
 	dawg.labelPool = dawg.labelPool[:0]
 	dawg.flagPool.clear()
 	dawg.numOfStates = 0
+	dawg.numOfMergedTransitions = 0
 	dawg.numOfMergedStates = 0
+	dawg.numOfMergingStates = 0
 }
-- 
2.43.0


From 124258344b29294b815563a70c3668043f47c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:30 +0000
Subject: [PATCH 11/16] fix: every label can be followed from the root of an
 empty dictionary

The root keeps offset 1, which was not marked as used, so fixBlock gave the
unused units exactly the labels that match it.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..2046cb7 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The root keeps its initial offset.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 8ce5775a6f737c5a384e8a19f006bcfc98db86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 12/16] fix: dawgtool cannot notice that a guide was not built

A nil *Guide stored in a SomeGuide never compares equal to nil.
---
 cmd/dawgtool/main.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..7dec3c0 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -155,10 +155,11 @@ func handleBuildDict() {
 	// Builds a guide
 	var guide dawg.SomeGuide
 	if optRanked {
-		guide = dawg.BuildRankedGuide(d, dict)
-		if guide == nil {
+		var rguide = dawg.BuildRankedGuide(d, dict)
+		if rguide == nil {
 			log.Fatalf("error: failed to build Guide\n")
 		}
+		guide = rguide
 
 		fmt.Printf("no. units: %d\n", guide.Size())
 		fmt.Printf("guide size: %d\n", guide.TotalSize())
@@ -167,10 +168,11 @@ func handleBuildDict() {
 			log.Fatalf("error: failed to write RankedGuide\n")
 		}
 	} else if optGuide {
-		guide = dawg.BuildGuide(d, dict)
-		if guide == nil {
+		var sguide = dawg.BuildGuide(d, dict)
+		if sguide == nil {
 			log.Fatalf("error: failed to build Guide\n")
 		}
+		guide = sguide
 
 		fmt.Printf("no. units: %d\n", guide.Size())
 		fmt.Printf("guide size: %d\n", guide.TotalSize())
-- 
2.43.0


From 19e785324cd2722f70fd45aa7a9ac5bc195084d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:53 +0000
Subject: [PATCH 13/16] fix: dawgtool silently stops at a line it cannot read

A line over 64 KB (or a read error) ended the scan: the dictionary was built from
the lines before it and the tool exited with status 0.
---
 cmd/dawgtool/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 7dec3c0..8746434 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -121,6 +121,9 @@ func handleBuildDict() {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
 
 	d := dawg.NewDawg()
 	builder.Finish(d)
@@ -267,6 +270,9 @@ func handleLoadDict() {
 		}
 		fmt.Println()
 	}
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
 
 	if optIndex {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
-- 
2.43.0


From ae5af158ac4b32a3020bd458456d857073f7f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:53 +0000
Subject: [PATCH 14/16] fix: dawgtool ignores a failure to close the dictionary
 it wrote

---
 cmd/dawgtool/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 8746434..cd1a37e 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -324,6 +324,9 @@ func main() {
 
 	if optBuild {
 		handleBuildDict()
+		if err = fileDictionary.Close(); err != nil {
+			log.Fatal(err)
+		}
 	} else {
 		handleLoadDict()
 	}
-- 
2.43.0


From 3108b9a0e38de491c112904dd6989013ec5d053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:53 +0000
Subject: [PATCH 15/16] fix: dawgtool -s sorts whole lines although it inserts
 keys

With -t the value column took part in the comparison, so the sorted order could
differ from the order of the keys and the insertion failed (with -u, "\u0450" and
"\u0450\u0450").
---
 cmd/dawgtool/main.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index cd1a37e..e887f12 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -30,6 +30,17 @@ var scanner *bufio.Scanner
 
 var builder *dawg.DawgBuilder
 
+// The bytes a line of the lexicon is inserted under.
+func keyBytes(line string) []uint8 {
+	if optTab {
+		line = strings.Split(line, "\t")[0]
+	}
+	if optUtfc {
+		return dawg.UtfcEncode(line)
+	}
+	return []uint8(line)
+}
+
 func processLine(line string) bool {
 	if len(line) == 0 {
 		return false
@@ -56,12 +67,7 @@ func processLine(line string) bool {
 		val = int32(value)
 	}
 
-	var bytes []uint8
-	if optUtfc {
-		bytes = dawg.UtfcEncode(key)
-	} else {
-		bytes = []uint8(key)
-	}
+	var bytes []uint8 = keyBytes(line)
 	if !builder.InsertKeyValue(bytes, len(bytes), val) {
 		//fmt.Printf("key %s: %v", line, bytes)
 		log.Fatalf("error: failed to insert key: %s\n", key)
@@ -80,11 +86,8 @@ func handleBuildDict() {
 			buffer = append(buffer, scanner.Text())
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
-			if !optUtfc {
-				return buffer[i] < buffer[j]
-			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
+			bytes1 := keyBytes(buffer[i])
+			bytes2 := keyBytes(buffer[j])
 			length := len(bytes1)
 			if len(bytes2) < length {
 				length = len(bytes2)
-- 
2.43.0


From 200ce276294e1abb992ae4c1ede1949ebc791dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:53 +0000
Subject: [PATCH 16/16] fix: dawgtool crashed at the end of queries with -i but
 no guide

The index is only read when there is a guide, so without one the indexer
is empty and listing the keys dereferenced a nil index.
---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index e887f12..f17290a 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -277,7 +277,7 @@ func handleLoadDict() {
 		log.Fatal(err)
 	}
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0

