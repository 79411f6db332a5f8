R=[
('db-fix-loopforever',[('dawg_builder.go','''	for db.unfixedUnits[len(db.unfixedUnits)-1] != index {
		var unfixedIndex baseType = db.unfixedUnits[len(db.unfixedUnits)-1]
		db.unfixedUnits = db.unfixedUnits[:len(db.unfixedUnits)-1]
''','''	for {
		top := len(db.unfixedUnits) - 1
		unfixedIndex := db.unfixedUnits[top]
		db.unfixedUnits = db.unfixedUnits[:top]
		if unfixedIndex == index {
			return
		}
'''),('dawg_builder.go','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
	}
	db.unfixedUnits = db.unfixedUnits[:len(db.unfixedUnits)-1]
}
''','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
	}
}
''')]),
('db-insert-closure',[('dawg_builder.go','''	var index baseType = 0
	var keyPos sizeType = 0

	// Finds a separate unit.
''','''	labelAt := func(pos sizeType) ucharType {
		if pos < length {
			return key[pos]
		}
		return 0
	}

	var index baseType = 0
	var keyPos sizeType = 0

	// Finds a separate unit.
'''),('dawg_builder.go','''		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var unitLabel ucharType''','''		keyLabel := labelAt(keyPos)
		var unitLabel ucharType'''),('dawg_builder.go','''		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var childIndex baseType = db.allocateUnit()
''','''		keyLabel := labelAt(keyPos)
		var childIndex baseType = db.allocateUnit()
''')]),
('db-expand-continue',[('dawg_builder.go','''		if db.labelPool[index] == 0 || db.basePool[index].isState() {
			var hashId baseType
			db.findTransition(index, &hashId)
			db.hashTable[hashId] = index
			count += 1
		}
''','''		if db.labelPool[index] != 0 && !db.basePool[index].isState() {
			continue
		}
		var hashId baseType
		db.findTransition(index, &hashId)
		db.hashTable[hashId] = index
'''),('dawg_builder.go','''	var count baseType = 0
	for i := 1;''','''	for i := 1;''')]),
('db-init-order',[('dawg_builder.go','''	db.hashTable = make([]baseType, db.initialHashTableSize)
	db.allocateUnit()
	db.allocateTransition()
	db.unitPool[0].label = 0xff
	db.unfixedUnits = append(db.unfixedUnits, 0)
''','''	root := db.allocateUnit()
	db.unitPool[root].label = 0xff
	db.unfixedUnits = append(db.unfixedUnits, root)
	db.allocateTransition()
	db.hashTable = make([]baseType, db.initialHashTableSize)
''')]),
('db-find-returnpair',[('dawg_builder.go','''func (db *DawgBuilder) findUnit(unitIndex baseType, hashId *baseType) baseType {
	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))
	for {
		var transitionId baseType = db.hashTable[*hashId]
		if transitionId == 0 {
			break
		}

		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
	}
	return 0
}
''','''func (db *DawgBuilder) findUnit(unitIndex baseType) (matched baseType, slot baseType) {
	size := baseType(len(db.hashTable))
	slot = db.hashUnit(unitIndex) % size
	for ; ; slot = (slot + 1) % size {
		matched = db.hashTable[slot]
		if matched == 0 || db.areEqual(unitIndex, matched) {
			return matched, slot
		}
	}
}
'''),('dawg_builder.go','''		var hashId baseType
		var matchedIndex baseType = db.findUnit(unfixedIndex, &hashId)
''','''		matchedIndex, hashId := db.findUnit(unfixedIndex)
''')]),
('db-fix-alloc-n',[('dawg_builder.go','''			var transitionIndex baseType = 0
			for i := 0; i < numOfSiblings; i += 1 {
				transitionIndex = db.allocateTransition()
			}
			for i := unfixedIndex''','''			transitionIndex := db.allocateTransitions(numOfSiblings)
			for i := unfixedIndex'''),('dawg_builder.go','''func (db *DawgBuilder) init() {''','''// Gets n transitions and returns the last of them.
func (db *DawgBuilder) allocateTransitions(n sizeType) baseType {
	var last baseType
	for ; n > 0; n-- {
		last = db.allocateTransition()
	}
	return last
}

func (db *DawgBuilder) init() {''')]),
('dcb-expand-dead',[('dictionary_builder.go','''	db.extra(srcNumOfUnits).setPrev(destNumOfUnits - 1)
	db.extra(destNumOfUnits - 1).setNext(srcNumOfUnits)

	// Merges''','''	// Merges''')]),
('dcb-expand-last',[('dictionary_builder.go','''	// Merges 2 circular linked lists.
	db.extra(srcNumOfUnits).setPrev(db.extra(db.unfixedIndex).prev())
	db.extra(destNumOfUnits - 1).setNext(db.unfixedIndex)

	db.extra(db.extra(db.unfixedIndex).prev()).setNext(srcNumOfUnits)
	db.extra(db.unfixedIndex).setPrev(destNumOfUnits - 1)
''','''	// Merges 2 circular linked lists.
	first, last := srcNumOfUnits, destNumOfUnits-1
	head := db.unfixedIndex
	tail := db.extra(head).prev()
	db.extra(first).setPrev(tail)
	db.extra(last).setNext(head)
	db.extra(tail).setNext(first)
	db.extra(head).setPrev(last)
''')]),
('dcb-build-merging',[('dictionary_builder.go','''	if db.dawg.IsMerging(dawgChildIndex) {
		var offset baseType = db.linkTable.Find(dawgChildIndex)
''','''	merging := db.dawg.IsMerging(dawgChildIndex)
	if merging {
		var offset baseType = db.linkTable.Find(dawgChildIndex)
'''),('dictionary_builder.go','''	if db.dawg.IsMerging(dawgChildIndex) {
		db.linkTable.Insert''','''	if merging {
		db.linkTable.Insert''')]),
('dcb-build-forpost',[('dictionary_builder.go','''	for {
		var dictChildIndex baseType = offset ^ baseType(db.dawg.Label(dawgChildIndex))
		if !db.buildDictionaryIndices(dawgChildIndex, dictChildIndex) {
			return false
		}
		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
		if dawgChildIndex == 0 {
			break
		}
	}
	return true
''','''	for child := dawgChildIndex; ; {
		if !db.buildDictionaryIndices(child, offset^baseType(db.dawg.Label(child))) {
			return false
		}
		if child = db.dawg.Sibling(child); child == 0 {
			return true
		}
	}
''')]),
('dcb-fits-helper',[('dictionary_builder.go','''			if (offset&upperMask == 0) || (offset&lowerMask == 0) {
''','''			if representable(offset) {
'''),('dictionary_builder.go','''	var relativeOffset baseType = index ^ offset
	if (relativeOffset&lowerMask != 0) && (relativeOffset&upperMask != 0) {
		return false
	}
''','''	if !representable(index ^ offset) {
		return false
	}
'''),('dictionary_builder.go','''// Arranges child nodes.
func''','''// Tells whether a relative offset fits in a unit.
func representable(offset baseType) bool {
	return offset&upperMask == 0 || offset&lowerMask == 0
}

// Arranges child nodes.
func''')]),
('c-next-advance',[('completer.go','''			for {
				var siblingLabel ucharType = c.guide.Sibling(index)

				// Moves to the previous node
				if len(c.path) > 1 {
					c.path = c.path[:len(c.path)-1]
					c.path[len(c.path)-1] = 0
				}
				c.indexStack = c.indexStack[:len(c.indexStack)-1]
				if len(c.indexStack) == 0 {
					return false
				}

				index = c.indexStack[len(c.indexStack)-1]
				if siblingLabel != 0 {
					// Follows a transition to the next sibling.
					if !c.Follow(siblingLabel, &index) {
						return false
					}
					break
				}
			}
''','''			var siblingLabel ucharType
			for siblingLabel == 0 {
				siblingLabel = c.guide.Sibling(index)

				// Moves to the previous node
				if n := len(c.path) - 1; n > 0 {
					c.path = c.path[:n]
					c.path[n-1] = 0
				}
				top := len(c.indexStack) - 1
				c.indexStack = c.indexStack[:top]
				if top == 0 {
					return false
				}
				index = c.indexStack[top-1]
			}
			// Follows a transition to the next sibling.
			if !c.Follow(siblingLabel, &index) {
				return false
			}
''')]),
('c-next-early',[('completer.go','''	var index baseType = c.indexStack[len(c.indexStack)-1]

	if c.isStarted {
''','''	var index baseType = c.indexStack[len(c.indexStack)-1]
	if !c.isStarted {
		return c.FindTerminal(index)
	}

	{
''')]),
('gb-nochildlabel',[('guide_builder.go','''	for {
		var childLabel ucharType = gb.dawg.Label(dawgChildIndex)
		var dictChildIndex baseType = dictIndex
		if !gb.dict.Follow(childLabel, &dictChildIndex) {
			return false
		}

		if !gb.buildIndices(dawgChildIndex, dictChildIndex) {
			return false
		}

		var dawgSiblingIndex baseType = gb.dawg.Sibling(dawgChildIndex)
		var siblingLabel ucharType = gb.dawg.Label(dawgSiblingIndex)
		if dawgSiblingIndex != 0 {
			gb.units[dictChildIndex].Sibling = siblingLabel
		}

		dawgChildIndex = dawgSiblingIndex
		if dawgChildIndex == 0 {
			return true
		}
	}
}
''','''	for dawgChildIndex != 0 {
		dictChildIndex := dictIndex
		if !gb.dict.Follow(gb.dawg.Label(dawgChildIndex), &dictChildIndex) ||
			!gb.buildIndices(dawgChildIndex, dictChildIndex) {
			return false
		}

		dawgChildIndex = gb.dawg.Sibling(dawgChildIndex)
		if dawgChildIndex != 0 {
			gb.units[dictChildIndex].Sibling = gb.dawg.Label(dawgChildIndex)
		}
	}
	return true
}
''')]),
('gb-visit',[('guide_builder.go','''	if gb.isFixed(dictIndex) {
		return true
	}
	gb.setIsFixed(dictIndex)
''','''	if gb.visit(dictIndex) {
		return true
	}
'''),('guide_builder.go','''func (gb *GuideBuilder) setIsFixed(''','''// visit marks a position and tells whether it was marked before.
func (gb *GuideBuilder) visit(index baseType) bool {
	before := gb.isFixed(index)
	gb.setIsFixed(index)
	return before
}

func (gb *GuideBuilder) setIsFixed(''')]),
('rc-next-candidate',[('ranked_completer.go','''	var candidate *RankedCompleterCandidate = rc.candidateQueue[0]

	var nodeIndex baseType = candidate.nodeIndex
	rc.enqueueNode(nodeIndex)
	nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
''','''	candidate := heap.Pop(&rc.candidateQueue).(*RankedCompleterCandidate)

	var nodeIndex baseType = candidate.nodeIndex
	rc.enqueueNode(nodeIndex)
	nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
'''),('ranked_completer.go','''	rc.value = candidate.value
	heap.Pop(&rc.candidateQueue)

	return true
''','''	rc.value = candidate.value
	return true
''')]),
('rc-next-process',[('ranked_completer.go','''	for i := 0; i < len(rc.nodeQueue); i++ {
		var nodeIndex baseType = rc.nodeQueue[i]
		if rc.value != -1 && !rc.findSibling(&nodeIndex) {
			continue
		}
		nodeIndex = rc.findTerminal(nodeIndex)
		rc.enqueueCandidate(nodeIndex)
	}
	rc.nodeQueue = rc.nodeQueue[:0]
''','''	first := rc.value == -1
	for _, nodeIndex := range rc.nodeQueue {
		if first || rc.findSibling(&nodeIndex) {
			rc.enqueueCandidate(rc.findTerminal(nodeIndex))
		}
	}
	rc.nodeQueue = rc.nodeQueue[:0]
''')]),
('rc-reset',[('ranked_completer.go','''	rc.path = make([]ucharType, length)
	for i := 0; i < length; i++ {
		rc.path[i] = prefix[i]
	}
	rc.prefixLength = length
	rc.value = -1

	rc.nodes = rc.nodes[:0]
	rc.nodeQueue = rc.nodeQueue[:0]
	rc.candidateQueue = rc.candidateQueue[:0]
''','''	rc.reset()
	rc.path = append(make([]ucharType, 0, length), prefix[:length]...)
	rc.prefixLength = length
'''),('ranked_completer.go','''func reverseUCharSlice(''','''func (rc *RankedCompleter) reset() {
	rc.value = -1
	rc.nodes = rc.nodes[:0]
	rc.nodeQueue = rc.nodeQueue[:0]
	rc.candidateQueue = rc.candidateQueue[:0]
}

func reverseUCharSlice(''')]),
('rgb-max-return',[('ranked_guide_builder.go','''	linksCmp := makeRankedGuideLinkCmp(valuesCmp)
	sort.SliceStable(rgb.links[initialNumLinks:], func(i int, j int) bool {
		return linksCmp(&rgb.links[initialNumLinks+i], &rgb.links[initialNumLinks+j])
	})
''','''	linksCmp := makeRankedGuideLinkCmp(valuesCmp)
	links := rgb.links[initialNumLinks:]
	sort.SliceStable(links, func(i int, j int) bool {
		return linksCmp(&links[i], &links[j])
	})
''')]),
('ix-find-helper',[('indexer.go','''	for i := 0; i < len(bytes); i++ {
		if idx.dict.HasValue(index) {
			result++
		}

		var childLabel ucharType = idx.guide.Child(index)
		for childLabel < bytes[i] && childLabel != 0 {
			var childIndex baseType = index
			if !idx.dict.Follow(childLabel, &childIndex) {
				return Failed
			}
			result += idx.index.ChildCount(childIndex)
			childLabel = idx.guide.Sibling(childIndex)
		}

		if childLabel == 0 {
			return NotFound
		}

		var childIndex baseType = index
		if !idx.dict.Follow(bytes[i], &childIndex) {
			return NotFound
		}
		index = childIndex
	}
''','''	for _, b := range bytes {
		if idx.dict.HasValue(index) {
			result++
		}

		childLabel := idx.guide.Child(index)
		for ; childLabel != 0 && childLabel < b; {
			childIndex := index
			if !idx.dict.Follow(childLabel, &childIndex) {
				return Failed
			}
			result += idx.index.ChildCount(childIndex)
			childLabel = idx.guide.Sibling(childIndex)
		}

		if childLabel == 0 || !idx.dict.Follow(b, &index) {
			return NotFound
		}
	}
''')]),
('m-parse-helper',[('cmd/dawgtool/main.go','''		value, err := strconv.Atoi(parts[1])
		if err != nil {
			log.Fatal(err)
		}
		if value < 0 {
			fmt.Printf("warning: negative value is replaced by 0: %d\\n", value)
			value = 0
		} else if value > dawg.MaxValue {
			fmt.Printf("warning: too large value is replaced by %d\\n", dawg.MaxValue)
			value = dawg.MaxValue
		}
		val = int32(value)
''','''		val = parseValue(parts[1])
'''),('cmd/dawgtool/main.go','''func processLine(line string) bool {''','''func parseValue(text string) int32 {
	value, err := strconv.Atoi(text)
	switch {
	case err != nil:
		log.Fatal(err)
	case value < 0:
		fmt.Printf("warning: negative value is replaced by 0: %d\\n", value)
		return 0
	case value > dawg.MaxValue:
		fmt.Printf("warning: too large value is replaced by %d\\n", dawg.MaxValue)
		return dawg.MaxValue
	}
	return int32(value)
}

func processLine(line string) bool {''')]),
('m-build-lines',[('cmd/dawgtool/main.go','''		for i := 0; i < len(buffer); i++ {
			if processLine(buffer[i]) {
				keyCount++
				if keyCount%10000 == 0 {
					fmt.Printf("no. keys: %d\\n", keyCount)
				}
			}
		}
	} else {
		for scanner.Scan() {
			var line string = scanner.Text()
			if processLine(line) {
				keyCount++
				if keyCount%10000 == 0 {
					fmt.Printf("no. keys: %d\\n", keyCount)
				}
			}
		}
	}
''','''		for _, line := range buffer {
			insert(line)
		}
	} else {
		for scanner.Scan() {
			insert(scanner.Text())
		}
	}
'''),('cmd/dawgtool/main.go','''	var keyCount int = 0
''','''	var keyCount int = 0
	insert := func(line string) {
		if !processLine(line) {
			return
		}
		if keyCount++; keyCount%10000 == 0 {
			fmt.Printf("no. keys: %d\\n", keyCount)
		}
	}
''')]),
('m-load-prefixes',[('cmd/dawgtool/main.go','''			for i := 0; i < len(key); i++ {
				if !dict.Follow(key[i], &index) {
					break
				}

				// Reads a value
				if dict.HasValue(index) {
					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
				}
			}
		}
''','''			printPrefixes(dict, key)
		}
'''),('cmd/dawgtool/main.go','''func handleLoadDict() {''','''func printPrefixes(dict *dawg.Dictionary, key string) {
	index := dict.Root()
	for i := 0; i < len(key) && dict.Follow(key[i], &index); i++ {
		if dict.HasValue(index) {
			fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
		}
	}
}

func handleLoadDict() {''')]),
('m-load-status',[('cmd/dawgtool/main.go','''				if idx == dawg.NotFound {
					fmt.Printf(" (not found)")
				} else if idx == dawg.Failed {
					fmt.Printf(" (failed)")
				} else {
					fmt.Printf(" (#%d)", idx)
				}
''','''				fmt.Printf(" (%s)", describe(idx))
'''),('cmd/dawgtool/main.go','''func handleLoadDict() {''','''func describe(idx uint32) string {
	switch idx {
	case dawg.NotFound:
		return "not found"
	case dawg.Failed:
		return "failed"
	}
	return fmt.Sprintf("#%d", idx)
}

func handleLoadDict() {''')]),
('m-guide-switch',[('cmd/dawgtool/main.go','''	var guide dawg.SomeGuide
	if optRanked {
		var rguide = dawg.BuildRankedGuide(d, dict)
		if rguide == nil {
			log.Fatalf("error: failed to build Guide\\n")
		}
		guide = rguide

		fmt.Printf("no. units: %d\\n", guide.Size())
		fmt.Printf("guide size: %d\\n", guide.TotalSize())

		if !guide.Write(fileDictionary) {
			log.Fatalf("error: failed to write RankedGuide\\n")
		}
	} else if optGuide {
		var sguide = dawg.BuildGuide(d, dict)
		if sguide == nil {
			log.Fatalf("error: failed to build Guide\\n")
		}
		guide = sguide

		fmt.Printf("no. units: %d\\n", guide.Size())
		fmt.Printf("guide size: %d\\n", guide.TotalSize())

		if !guide.Write(fileDictionary) {
			log.Fatalf("error: failed to write Guide\\n")
		}
	}
''','''	var guide dawg.SomeGuide
	var kind string
	switch {
	case optRanked:
		kind = "RankedGuide"
		if g := dawg.BuildRankedGuide(d, dict); g != nil {
			guide = g
		}
	case optGuide:
		kind = "Guide"
		if g := dawg.BuildGuide(d, dict); g != nil {
			guide = g
		}
	}
	if kind != "" {
		if guide == nil {
			log.Fatalf("error: failed to build Guide\\n")
		}
		fmt.Printf("no. units: %d\\n", guide.Size())
		fmt.Printf("guide size: %d\\n", guide.TotalSize())
		if !guide.Write(fileDictionary) {
			log.Fatalf("error: failed to write %s\\n", kind)
		}
	}
''')]),
]
