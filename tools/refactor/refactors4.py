R=[
('c-next-guard',[('completer.go','''	if c.isStarted {
		var childLabel ucharType = c.guide.Child(index)
		if childLabel != 0 {
			// Follows a transition to the first child.
			if !c.Follow(childLabel, &index) {
				return false
			}
		} else {
''','''	if !c.isStarted {
		return c.FindTerminal(index)
	}
	{
		if childLabel := c.guide.Child(index); childLabel != 0 {
			// Follows a transition to the first child.
			return c.Follow(childLabel, &index) && c.FindTerminal(index)
		} else {
''')]),
('c-push',[('completer.go','''	c.path[len(c.path)-1] = label
	c.path = append(c.path, 0)
	c.indexStack = append(c.indexStack, *index)
	return true
}
''','''	c.push(label, *index)
	return true
}

func (c *Completer) push(label ucharType, index baseType) {
	last := len(c.path) - 1
	c.path[last] = label
	c.path = append(c.path, 0)
	c.indexStack = append(c.indexStack, index)
}
'''),('completer.go','''		c.path[len(c.path)-1] = label
		c.path = append(c.path, 0)
		c.indexStack = append(c.indexStack, index)
	}
''','''		c.push(label, index)
	}
''')]),
('c-sibling-loop',[('completer.go','''			for {
				var siblingLabel ucharType = c.guide.Sibling(index)
''','''			for siblingLabel := ucharType(0); siblingLabel == 0; {
				siblingLabel = c.guide.Sibling(index)
'''),('completer.go','''						return false
					}
					break
				}
			}
''','''						return false
					}
				}
			}
''')]),
('c-start-append',[('completer.go','''	c.path = make([]ucharType, length+1)
	for i := 0; i < length; i++ {
		c.path[i] = prefix[i]
	}
	c.path[length] = 0
''','''	path := make([]ucharType, 0, length+1)
	path = append(path, prefix[:length]...)
	c.path = append(path, 0)
''')]),
('c-start-reorder',[('completer.go','''	c.indexStack = c.indexStack[:0]
	c.lastIndex = c.dict.Root()
	c.isStarted = false
	if c.guide.size != 0 {
		c.indexStack = append(c.indexStack, index)
	}
''','''	c.isStarted = false
	c.lastIndex = c.dict.Root()
	stack := c.indexStack[:0]
	if c.guide.Size() > 0 {
		stack = append(stack, index)
	}
	c.indexStack = stack
''')]),
('rc-next-range',[('ranked_completer.go','''	for i := 0; i < len(rc.nodeQueue); i++ {
		var nodeIndex baseType = rc.nodeQueue[i]
		if rc.value''','''	for _, nodeIndex := range rc.nodeQueue {
		if rc.value''')]),
('rc-next-cond',[('ranked_completer.go','''		if rc.value != -1 && !rc.findSibling(&nodeIndex) {
			continue
		}
		nodeIndex = rc.findTerminal(nodeIndex)
		rc.enqueueCandidate(nodeIndex)
''','''		if rc.value == -1 || rc.findSibling(&nodeIndex) {
			rc.enqueueCandidate(rc.findTerminal(nodeIndex))
		}
''')]),
('rc-next-pop',[('ranked_completer.go','''	var candidate *RankedCompleterCandidate = rc.candidateQueue[0]
''','''	candidate := heap.Pop(&rc.candidateQueue).(*RankedCompleterCandidate)
'''),('ranked_completer.go','''	rc.value = candidate.value
	heap.Pop(&rc.candidateQueue)
''','''	rc.value = candidate.value
''')]),
('rc-sibling-ptr',[('ranked_completer.go','''	var prevNodeIndex baseType = rc.nodes[*nodeIndex].prevNodeIndex
	var dictIndex baseType = rc.nodes[*nodeIndex].dictIndex

	var siblingLabel ucharType = rc.guide.Sibling(dictIndex)
	if siblingLabel == 0 {
		if !rc.nodes[prevNodeIndex].hasTerminal {
			return false
		}
		rc.nodes[prevNodeIndex].hasTerminal = false
	}

	// Follows a transition to sibling and creates a node for the sibling.
	var dictPrevIndex baseType = rc.nodes[prevNodeIndex].dictIndex
	dictIndex = rc.followWithoutCheck(dictPrevIndex, siblingLabel)
	*nodeIndex = rc.createNode(dictIndex, prevNodeIndex, siblingLabel)
''','''	node := rc.nodes[*nodeIndex]
	parent := &rc.nodes[node.prevNodeIndex]

	label := rc.guide.Sibling(node.dictIndex)
	if label == 0 && !parent.hasTerminal {
		return false
	}
	if label == 0 {
		parent.hasTerminal = false
	}

	// Follows a transition to sibling and creates a node for the sibling.
	*nodeIndex = rc.createNode(rc.followWithoutCheck(parent.dictIndex, label), node.prevNodeIndex, label)
''')]),
('rc-create-local',[('ranked_completer.go','''	rc.nodes = append(rc.nodes, RankedCompleterNode{
		dictIndex:     dictIndex,
		prevNodeIndex: prevNodeIndex,
		label:         label,
		hasTerminal:   label != 0 && rc.dict.HasValue(dictIndex),
	})
	return baseType(len(rc.nodes) - 1)
''','''	nodeIndex := baseType(len(rc.nodes))
	node := RankedCompleterNode{
		dictIndex:     dictIndex,
		prevNodeIndex: prevNodeIndex,
		label:         label,
	}
	if label != 0 {
		node.hasTerminal = rc.dict.HasValue(dictIndex)
	}
	rc.nodes = append(rc.nodes, node)
	return nodeIndex
''')]),
('rc-path-count',[('ranked_completer.go','''	for nodeIndex != 0 {
		rc.path = append(rc.path, rc.nodes[nodeIndex].label)
		rc.enqueueNode(nodeIndex)
		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
	}
''','''	for ; nodeIndex != 0; nodeIndex = rc.nodes[nodeIndex].prevNodeIndex {
		rc.enqueueNode(nodeIndex)
		rc.path = append(rc.path, rc.nodes[nodeIndex].label)
	}
''')]),
('ix-bytes-inner',[('indexer.go','''		for childLabel < bytes[i] && childLabel != 0 {
			var childIndex baseType = index
''','''		label := bytes[i]
		for {
			if childLabel == 0 || childLabel >= label {
				break
			}
			var childIndex baseType = index
'''),('indexer.go','''		if childLabel == 0 {
			return NotFound
		}

		var childIndex baseType = index
		if !idx.dict.Follow(bytes[i], &childIndex) {
			return NotFound
		}
		index = childIndex
	}
''','''		if childLabel == 0 || !idx.dict.Follow(label, &index) {
			return NotFound
		}
	}
''')]),
('ix-tobytes-for',[('indexer.go','''			if i < cur+count {
				buf = append(buf, childLabel)
				index = childIndex
				break
			} else {
				cur += count
				childLabel = idx.guide.Sibling(childIndex)
			}
		}
''','''			if cur+count > i {
				index = childIndex
				buf = append(buf, childLabel)
				break
			}
			childLabel = idx.guide.Sibling(childIndex)
			cur += count
		}
''')]),
('ib-recurse',[('index_builder.go','''		if ib.index.units[childIndex] == 0 {
			if !ib.buildIndices(childIndex) {
				return false
			}
		}
''','''		if ib.index.units[childIndex] == 0 && !ib.buildIndices(childIndex) {
			return false
		}
''')]),
('rg-read-local',[('ranked_guide.go','''	var baseSize baseType
	err := binary.Read(r, binary.LittleEndian, &baseSize)
	if err != nil {
		return false
	}

	var size sizeType = sizeType(baseSize)
	var unitsBuf = make([]GuideUnit, size)
	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
	if err != nil {
		return false
	}

	rg.units = unitsBuf
	rg.size = len(unitsBuf)
	return true
''','''	var count baseType
	if err := binary.Read(r, binary.LittleEndian, &count); err != nil {
		return false
	}
	units := make([]GuideUnit, count)
	if err := binary.Read(r, binary.LittleEndian, units); err != nil {
		return false
	}
	rg.setUnits(units)
	return true
''')]),
('rg-write-chain',[('ranked_guide.go','''	var baseSize baseType = baseType(rg.size)
	err := binary.Write(w, binary.LittleEndian, baseSize)
	if err != nil {
		return false
	}

	err = binary.Write(w, binary.LittleEndian, rg.units)
	if err != nil {
		return false
	}

	return true
''','''	for _, part := range []interface{}{baseType(rg.size), rg.units} {
		if binary.Write(w, binary.LittleEndian, part) != nil {
			return false
		}
	}
	return true
''')]),
('db-hash-shared',[('dawg_builder.go','''		var base baseType = baseType(db.basePool[index])
		var label ucharType = db.labelPool[index]
		hashValue ^= intHash((baseType(label) << 24) ^ base)

		if''','''		hashValue ^= hashPair(db.labelPool[index], baseType(db.basePool[index]))

		if'''),('dawg_builder.go','''		var base baseType = db.unitPool[index].base()
		var label ucharType = db.unitPool[index].label
		hashValue ^= intHash((baseType(label) << 24) ^ base)
		index = db.unitPool[index].sibling
''','''		unit := &db.unitPool[index]
		hashValue ^= hashPair(unit.label, unit.base())
		index = unit.sibling
'''),('dawg_builder.go','''// Calculates a hash value from a transition.
''','''func hashPair(label ucharType, base baseType) baseType {
	return intHash(base ^ baseType(label)<<24)
}

// Calculates a hash value from a transition.
''')]),
('db-areequal-count',[('dawg_builder.go','''	for i := db.unitPool[unitIndex].sibling; i != 0; i = db.unitPool[i].sibling {
		if !db.basePool[transitionIndex].hasSibling() {
			return false
		}
		transitionIndex += 1
	}
	if db.basePool[transitionIndex].hasSibling() {
		return false
	}
''','''	i := db.unitPool[unitIndex].sibling
	for i != 0 && db.basePool[transitionIndex].hasSibling() {
		transitionIndex++
		i = db.unitPool[i].sibling
	}
	if i != 0 || db.basePool[transitionIndex].hasSibling() {
		return false
	}
''')]),
('db-findunit-step',[('dawg_builder.go','''		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
	}
	return 0
''','''		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = db.nextSlot(*hashId)
	}
	return 0
'''),('dawg_builder.go','''		// There must not be the same base value.
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
''','''		// There must not be the same base value.
		*hashId = db.nextSlot(*hashId)
'''),('dawg_builder.go','''// Finds a transition from a hash table.
''','''func (db *DawgBuilder) nextSlot(hashId baseType) baseType {
	return (hashId + 1) % baseType(len(db.hashTable))
}

// Finds a transition from a hash table.
''')]),
('db-findunit-local',[('dawg_builder.go','''	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))
	for {
		var transitionId baseType = db.hashTable[*hashId]
		if transitionId == 0 {
			break
		}

		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
	}
	return 0
''','''	size := baseType(len(db.hashTable))
	slot := db.hashUnit(unitIndex) % size
	transitionId := db.hashTable[slot]
	for transitionId != 0 && !db.areEqual(unitIndex, transitionId) {
		slot = (slot + 1) % size
		transitionId = db.hashTable[slot]
	}
	*hashId = slot
	return transitionId
''')]),
('db-fix-parent',[('dawg_builder.go','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
''','''		parentIndex := db.unfixedUnits[len(db.unfixedUnits)-1]
		db.unitPool[parentIndex].child = matchedIndex
''')]),
('db-fix-freelist',[('dawg_builder.go','''		var next baseType
		for current := unfixedIndex; current != 0; current = next {
			next = db.unitPool[current].sibling
			db.freeUnit(current)
		}
''','''		for current := unfixedIndex; current != 0; current = db.unitPool[current].sibling {
			db.freeUnit(current)
		}
''')]),
('db-fix-countdown',[('dawg_builder.go','''			for i := 0; i < numOfSiblings; i += 1 {
				transitionIndex = db.allocateTransition()
			}
''','''			for left := numOfSiblings; left > 0; left-- {
				transitionIndex = db.allocateTransition()
			}
''')]),
('db-fix-count-inline',[('dawg_builder.go','''			for i := 0; i < numOfSiblings; i += 1 {
				transitionIndex = db.allocateTransition()
			}
''','''			for i := unfixedIndex; i != 0; i = db.unitPool[i].sibling {
				transitionIndex = db.allocateTransition()
			}
''')]),
('db-insert-keylabel',[('dawg_builder.go','''	// Finds a separate unit.
	for keyPos <= length {
		var childIndex baseType = db.unitPool[index].child
		if childIndex == 0 {
			break
		}

		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var unitLabel''','''	labelAt := func(pos sizeType) ucharType {
		if pos >= length {
			return 0
		}
		return key[pos]
	}

	// Finds a separate unit.
	for ; keyPos <= length; keyPos++ {
		var childIndex baseType = db.unitPool[index].child
		if childIndex == 0 {
			break
		}

		keyLabel := labelAt(keyPos)
		var unitLabel'''),('dawg_builder.go','''			db.fixUnits(childIndex)
			break
		}

		index = childIndex
		keyPos += 1
	}
''','''			db.fixUnits(childIndex)
			break
		}

		index = childIndex
	}
''')]),
('db-insert-find-helper',[('dawg_builder.go','''		db.unitPool[childIndex].sibling = db.unitPool[index].child
		db.unitPool[childIndex].label = keyLabel
		db.unitPool[index].child = childIndex
		db.unfixedUnits = append(db.unfixedUnits, childIndex)
''','''		db.link(index, childIndex, keyLabel)
'''),('dawg_builder.go','''func (db *DawgBuilder) InsertStringValue(''','''func (db *DawgBuilder) link(parent baseType, child baseType, label ucharType) {
	db.unfixedUnits = append(db.unfixedUnits, child)
	db.unitPool[child].label = label
	db.unitPool[child].sibling = db.unitPool[parent].child
	db.unitPool[parent].child = child
}

func (db *DawgBuilder) InsertStringValue(''')]),
('db-insert-order',[('dawg_builder.go','''		if keyLabel < unitLabel {
			return false
		} else if keyLabel > unitLabel {
			db.unitPool[childIndex].hasSibling = true
			db.fixUnits(childIndex)
			break
		}

		index = childIndex
		keyPos += 1
	}
''','''		if keyLabel == unitLabel {
			index = childIndex
			keyPos += 1
			continue
		}
		if keyLabel < unitLabel {
			return false
		}
		db.unitPool[childIndex].hasSibling = true
		db.fixUnits(childIndex)
		break
	}
''')]),
('db-finish-stats',[('dawg_builder.go','''	dawg.numOfStates = db.numOfStates
	dawg.numOfMergedTransitions = db.numOfMergedTransitions
	dawg.numOfMergedStates = db.numOfMergedStates()
	dawg.numOfMergingStates = db.numOfMergingStates

	dawg.basePool, db.basePool = db.basePool, dawg.basePool
	dawg.labelPool, db.labelPool = db.labelPool, dawg.labelPool
	dawg.flagPool, db.flagPool = db.flagPool, dawg.flagPool
''','''	oldBase, oldLabels, oldFlags := dawg.basePool, dawg.labelPool, dawg.flagPool
	dawg.basePool = db.basePool
	dawg.labelPool = db.labelPool
	dawg.flagPool = db.flagPool

	dawg.numOfStates = db.numOfStates
	dawg.numOfMergingStates = db.numOfMergingStates
	dawg.numOfMergedTransitions = db.numOfMergedTransitions
	dawg.numOfMergedStates = db.numOfMergedStates()

	db.basePool, db.labelPool, db.flagPool = oldBase, oldLabels, oldFlags
''')]),
('dcb-build-helper',[('dictionary_builder.go','''		var offset baseType = db.linkTable.Find(dawgChildIndex)
		if offset != 0 {
			offset ^= dictIndex
			if (offset&upperMask == 0) || (offset&lowerMask == 0) {
				if db.dawg.IsLeaf(dawgChildIndex) {
					dictSetHasLeaf(&db.units[dictIndex])
				}
				dictSetOffset(&db.units[dictIndex], offset)
				return true
			}
		}
	}
''','''		if db.reuse(dawgChildIndex, dictIndex) {
			return true
		}
	}
'''),('dictionary_builder.go','''// Arranges child nodes.
''','''func (db *DictionaryBuilder) reuse(dawgChildIndex baseType, dictIndex baseType) bool {
	target := db.linkTable.Find(dawgChildIndex)
	if target == 0 {
		return false
	}
	relative := target ^ dictIndex
	if relative&upperMask != 0 && relative&lowerMask != 0 {
		return false
	}
	unit := &db.units[dictIndex]
	if db.dawg.IsLeaf(dawgChildIndex) {
		dictSetHasLeaf(unit)
	}
	dictSetOffset(unit, relative)
	return true
}

// Arranges child nodes.
''')]),
('dcb-arrange-for',[('dictionary_builder.go','''	var dawgChildIndex baseType = db.dawg.Child(dawgIndex)
	for dawgChildIndex != 0 {
		db.labels = append(db.labels, db.dawg.Label(dawgChildIndex))
		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''','''	for i := db.dawg.Child(dawgIndex); i != 0; i = db.dawg.Sibling(i) {
		db.labels = append(db.labels, db.dawg.Label(i))
	}
'''),('dictionary_builder.go','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for i := 0; i < len(db.labels); i++ {
		var dictChildIndex baseType = offset ^ baseType(db.labels[i])
''','''	dawgChildIndex := db.dawg.Child(dawgIndex)
	for _, label := range db.labels {
		dictChildIndex := offset ^ baseType(label)
'''),('dictionary_builder.go','''dictSetLabel(&db.units[dictChildIndex], db.labels[i])''','''dictSetLabel(&db.units[dictChildIndex], label)''')]),
('dcb-find-condition',[('dictionary_builder.go','''	if db.unfixedIndex >= db.numOfUnits() {
		return db.numOfUnits() | (index & 0xff)
	}

	// Scans unused units to find a good offset.
	var unfixedIndex baseType = db.unfixedIndex
	for {
		var offset baseType = unfixedIndex ^ baseType(db.labels[0])
		if db.isGoodOffset(index, offset) {
			return offset
		}
		unfixedIndex = db.extra(unfixedIndex).next()
		if unfixedIndex == db.unfixedIndex {
			break
		}
	}

	return db.numOfUnits() | (index & 0xff)
''','''	if db.unfixedIndex < db.numOfUnits() {
		// Scans unused units to find a good offset.
		first := baseType(db.labels[0])
		for i := db.unfixedIndex; ; {
			if offset := i ^ first; db.isGoodOffset(index, offset) {
				return offset
			}
			if i = db.extra(i).next(); i == db.unfixedIndex {
				break
			}
		}
	}

	return db.numOfUnits() | (index & lowerMask)
''')]),
('dcb-fix-nested',[('dictionary_builder.go','''	for index := begin; index != end; index++ {
		if !db.extra(index).isFixed() {
			db.reserveUnit(index)
			dictSetLabel(&db.units[index], ucharType(index^unusedOffsetForLabel))
			db.numOfUnusedUnits += 1
		}
	}
''','''	for index := begin; index < end; index++ {
		if db.extra(index).isFixed() {
			continue
		}
		db.numOfUnusedUnits++
		db.reserveUnit(index)
		dictSetLabel(&db.units[index], ucharType(index)^ucharType(unusedOffsetForLabel))
	}
''')]),
('dcb-fix-scan',[('dictionary_builder.go','''	for offset := begin; offset != end; offset++ {
		if !db.extra(offset).isUsed() {
			unusedOffsetForLabel = offset
			break
		}
	}
''','''	offset := begin
	for offset != end && db.extra(offset).isUsed() {
		offset++
	}
	if offset != end {
		unusedOffsetForLabel = offset
	}
''')]),
('dcb-bd-root',[('dictionary_builder.go','''	if db.dawg.Size() > 1 {
		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
			return false
		}
	} else {
		// The root keeps its initial offset.
		db.extra(1).setIsUsed()
	}
''','''	if db.dawg.Size() <= 1 {
		// The root keeps its initial offset.
		db.extra(1).setIsUsed()
	} else if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
		return false
	}
''')]),
('rgb-build-split',[('ranked_guide_builder.go','''	linksCmp := makeRankedGuideLinkCmp(valuesCmp)
	sort.SliceStable(rgb.links[initialNumLinks:], func(i int, j int) bool {
		return linksCmp(&rgb.links[initialNumLinks+i], &rgb.links[initialNumLinks+j])
	})
''','''	links := rgb.links[initialNumLinks:]
	linksCmp := makeRankedGuideLinkCmp(valuesCmp)
	sort.SliceStable(links, func(i int, j int) bool {
		return linksCmp(&links[i], &links[j])
	})
''')]),
('rgb-turn-simplify',[('ranked_guide_builder.go','''		var siblingLabel ucharType = rgb.links[i].label

		var dictSiblingIndex = rgb.followWithoutCheck(dictIndex, siblingLabel)
		rgb.units[dictChildIndex].Sibling = siblingLabel
		dictChildIndex = dictSiblingIndex
''','''		label := rgb.links[i].label
		rgb.units[dictChildIndex].Sibling = label
		dictChildIndex = rgb.followWithoutCheck(dictIndex, label)
''')]),
('rgb-findmax-local',[('ranked_guide_builder.go','''	for rgb.units[dictIndex].Child != 0 {
		var childLabel ucharType = rgb.units[dictIndex].Child
		if !rgb.dict.Follow(childLabel, &dictIndex) {
			return false
		}
	}
''','''	for {
		label := rgb.units[dictIndex].Child
		if label == 0 {
			break
		}
		if !rgb.dict.Follow(label, &dictIndex) {
			return false
		}
	}
''')]),
('rgb-enum-continue',[('ranked_guide_builder.go','''		var value valueType = -1
		var childLabel ucharType = rgb.dawg.Label(dawgChildIndex)
		if childLabel == 0 {
			if !rgb.dict.HasValue(dictIndex) {
				return false
			}
			value = rgb.dict.Value(dictIndex)
		} else {
			var dictChildIndex = dictIndex
			if !rgb.dict.Follow(childLabel, &dictChildIndex) {
				return false
			}

			if !rgb.buildIndices(dawgChildIndex, dictChildIndex, &value, valuesCmp) {
				return false
			}
		}
		rgb.links = append(rgb.links, RankedGuideLink{
			label: childLabel,
			value: value,
		})
''','''		label := rgb.dawg.Label(dawgChildIndex)
		value, ok := rgb.linkValue(dawgChildIndex, dictIndex, label, valuesCmp)
		if !ok {
			return false
		}
		rgb.links = append(rgb.links, RankedGuideLink{label: label, value: value})
'''),('ranked_guide_builder.go','''// Modifies units.
''','''func (rgb *RankedGuideBuilder) linkValue(dawgChildIndex baseType, dictIndex baseType, label ucharType, valuesCmp valueComparatorFunc) (valueType, bool) {
	if label == 0 {
		if !rgb.dict.HasValue(dictIndex) {
			return 0, false
		}
		return rgb.dict.Value(dictIndex), true
	}
	var value valueType = -1
	if !rgb.dict.Follow(label, &dictIndex) || !rgb.buildIndices(dawgChildIndex, dictIndex, &value, valuesCmp) {
		return 0, false
	}
	return value, true
}

// Modifies units.
''')]),
('gb-loop-for',[('guide_builder.go','''	for {
		var childLabel ucharType = gb.dawg.Label(dawgChildIndex)
		var dictChildIndex''','''	for dawgChildIndex != 0 {
		var childLabel ucharType = gb.dawg.Label(dawgChildIndex)
		var dictChildIndex'''),('guide_builder.go','''		dawgChildIndex = dawgSiblingIndex
		if dawgChildIndex == 0 {
			return true
		}
	}
''','''		dawgChildIndex = dawgSiblingIndex
	}
	return true
''')]),
('gb-sibling-if',[('guide_builder.go','''		var siblingLabel ucharType = gb.dawg.Label(dawgSiblingIndex)
		if dawgSiblingIndex != 0 {
			gb.units[dictChildIndex].Sibling = siblingLabel
		}

		dawgChildIndex = dawgSiblingIndex
		if dawgChildIndex == 0 {
			return true
		}
''','''		if dawgSiblingIndex == 0 {
			return true
		}
		gb.units[dictChildIndex].Sibling = gb.dawg.Label(dawgSiblingIndex)
		dawgChildIndex = dawgSiblingIndex
''')]),
('u-lo-helper',[('utfc.go','''		newOffs := cp & offsMask13Bit
		if !st.is21Bit && newOffs == st.offs { // 1 byte: code point is within the current alphabet
			lo := byte(cp & 0x7F)
			if lo == 0 {
				if !f.Follow(marker0) {
					return false
				}
			} else {
				if !f.Follow(lo) {
					return false
				}
			}
		} else { // Final''','''		newOffs := cp & offsMask13Bit
		if !st.is21Bit && newOffs == st.offs { // 1 byte: code point is within the current alphabet
			lo := byte(cp & 0x7F)
			if lo == 0 {
				lo = marker0
			}
			if !f.Follow(lo) {
				return false
			}
		} else { // Final''')]),
('u-decode-take',[('utfc.go','''			hi := 0
			if zm != marker10 {
				hi = int(buf[i])
				i++
			}
			cp = (cp^marker13Bit)<<8 | hi
			auxOffs = getAuxOffset(offs)
			if cp <= maxLatinCp {
				offs = 0
			} else {
				offs = cp & offsMask13Bit
			}
			is21Bit = false
''','''			cp = (cp ^ marker13Bit) << 8
			if zm != marker10 {
				cp |= int(buf[i])
				i++
			}
			auxOffs = getAuxOffset(offs)
			offs = 0
			if cp > maxLatinCp {
				offs = cp & offsMask13Bit
			}
			is21Bit = false
''')]),
('u-decode-switch',[('utfc.go','''		} else if is21Bit {
			hi := 0
			if zm != marker10 && zm != marker0 {
				hi = int(buf[i])
				i++
			}
			cp = min21BitCp + (offs | cp<<8 | hi)
		} else {
			cp = offs | cp
		}
''','''		} else if !is21Bit {
			cp |= offs
		} else {
			hi := 0
			if !(zm == marker10 || zm == marker0) {
				hi = int(buf[i])
				i++
			}
			cp = (cp<<8 | hi | offs) + min21BitCp
		}
''')]),
('u-ranges-for',[('utfc.go','''	for _, rng := range ranges {
		if v < rng[1]-rng[0] {
			return rng[0] + v
		}
		v -= rng[1] - rng[0]
	}
	return -1
''','''	for i := range ranges {
		lo, hi := ranges[i][0], ranges[i][1]
		size := hi - lo
		if v < size {
			return lo + v
		}
		v -= size
	}
	return -1
''')]),
('u-encode-var',[('utfc.go','''	buffer := &byteBuffer{
		buf: make([]byte, 0, len(str)),
	}
	UtfcFollow(str, buffer)
	return buffer.buf
''','''	var out byteBuffer
	out.buf = make([]byte, 0, len(str))
	UtfcFollow(str, &out)
	return out.buf
''')]),
('u-follow-aux-first',[('utfc.go','''	if st.auxOffs == 0 && inRanges(cp, rangesLatin) {
		// 1 byte: auxiliary alphabet is Latin, rearrange it to fit 0xC0-0xFF range
		if !f.Follow(byte(markerAux | encodeRanges(cp, rangesLatin))) {
			return false
		}
	} else if st.auxOffs != 0 && cp >= st.auxOffs && cp <= st.auxOffs+0x3F {
		// 1 byte: code point is within the auxiliary alphabet (non-Latin)
		if !f.Follow(byte(markerAux | (cp - st.auxOffs))) {
			return false
		}
	} else
''','''	if st.auxOffs == 0 && inRanges(cp, rangesLatin) {
		// 1 byte: auxiliary alphabet is Latin, rearrange it to fit 0xC0-0xFF range
		return f.Follow(byte(markerAux | encodeRanges(cp, rangesLatin)))
	}
	if rel := cp - st.auxOffs; st.auxOffs != 0 && rel >= 0 && rel < 0x40 {
		// 1 byte: code point is within the auxiliary alphabet (non-Latin)
		return f.Follow(byte(markerAux | rel))
	}
''')]),
]
