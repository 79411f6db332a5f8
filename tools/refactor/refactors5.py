R=[
('db-insert-two-helpers',[('dawg_builder.go','''	// Adds new units.
	for keyPos <= length {
		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var childIndex baseType = db.allocateUnit()

		if db.unitPool[index].child == 0 {
			db.unitPool[childIndex].isState = true
		}
		db.unitPool[childIndex].sibling = db.unitPool[index].child
		db.unitPool[childIndex].label = keyLabel
		db.unitPool[index].child = childIndex
		db.unfixedUnits = append(db.unfixedUnits, childIndex)

		index = childIndex
		keyPos += 1
	}
	db.unitPool[index].setValue(value)
	return true
}
''','''	// Adds new units.
	for ; keyPos <= length; keyPos++ {
		index = db.addChild(index, labelAt(key, length, keyPos))
	}
	db.unitPool[index].setValue(value)
	return true
}

func labelAt(key []ucharType, length sizeType, pos sizeType) ucharType {
	if pos < length {
		return key[pos]
	}
	return 0
}

func (db *DawgBuilder) addChild(parent baseType, label ucharType) baseType {
	child := db.allocateUnit()
	first := db.unitPool[parent].child
	db.unitPool[child].isState = db.unitPool[child].isState || first == 0
	db.unitPool[child].sibling = first
	db.unitPool[child].label = label
	db.unitPool[parent].child = child
	db.unfixedUnits = append(db.unfixedUnits, child)
	return child
}
''')]),
('db-insert-ifelse',[('dawg_builder.go','''		if keyLabel < unitLabel {
			return false
		} else if keyLabel > unitLabel {
			db.unitPool[childIndex].hasSibling = true
			db.fixUnits(childIndex)
			break
		}

		index = childIndex
		keyPos += 1
	}
''','''		if keyLabel == unitLabel {
			index = childIndex
			keyPos += 1
			continue
		}
		if keyLabel < unitLabel {
			return false
		}
		db.unitPool[childIndex].hasSibling = true
		db.fixUnits(childIndex)
		break
	}
''')]),
('db-fix-pop-helper',[('dawg_builder.go','''	for db.unfixedUnits[len(db.unfixedUnits)-1] != index {
		var unfixedIndex baseType = db.unfixedUnits[len(db.unfixedUnits)-1]
		db.unfixedUnits = db.unfixedUnits[:len(db.unfixedUnits)-1]
''','''	for {
		var unfixedIndex baseType = db.popUnfixed()
		if unfixedIndex == index {
			return
		}
'''),('dawg_builder.go','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
	}
	db.unfixedUnits = db.unfixedUnits[:len(db.unfixedUnits)-1]
}
''','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
	}
}

func (db *DawgBuilder) popUnfixed() baseType {
	last := len(db.unfixedUnits) - 1
	top := db.unfixedUnits[last]
	db.unfixedUnits = db.unfixedUnits[:last]
	return top
}
''')]),
('db-fix-merge-helper',[('dawg_builder.go','''			// Records a merging state.
			if !db.flagPool.get(matchedIndex) {
				db.numOfMergingStates += 1
				db.flagPool.set(matchedIndex, true)
			}
''','''			db.markMerging(matchedIndex)
'''),('dawg_builder.go','''func (db *DawgBuilder) clear() {
''','''// Records a merging state.
func (db *DawgBuilder) markMerging(index baseType) {
	if db.flagPool.get(index) {
		return
	}
	db.flagPool.set(index, true)
	db.numOfMergingStates++
}

func (db *DawgBuilder) clear() {
''')]),
('db-equal-interleave',[('dawg_builder.go','''		if db.unitPool[i].base() != baseType(db.basePool[transitionIndex]) ||
			db.unitPool[i].label != db.labelPool[transitionIndex] {
			return false
		}
		transitionIndex -= 1
''','''		unit := &db.unitPool[i]
		if unit.label != db.labelPool[transitionIndex] {
			return false
		}
		if unit.base() != baseType(db.basePool[transitionIndex]) {
			return false
		}
		transitionIndex--
''')]),
('db-find-probe',[('dawg_builder.go','''	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))
	for {
		var transitionId baseType = db.hashTable[*hashId]
		if transitionId == 0 {
			break
		}

		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
	}
	return 0
''','''	size := baseType(len(db.hashTable))
	slot := db.hashUnit(unitIndex) % size
	defer func() { *hashId = slot }()
	for db.hashTable[slot] != 0 {
		if id := db.hashTable[slot]; db.areEqual(unitIndex, id) {
			return id
		}
		slot++
		if slot == size {
			slot = 0
		}
	}
	return 0
''')]),
('db-hash-mask-mul',[('dawg_builder.go','''	key = key + (key << 2)
	key = key ^ (key >> 4)
	key = key * 2057 // key = (key + (key << 3)) + (key << 11);
''','''	key *= 5
	key ^= key >> 4
	key += key<<3 + key<<11
''')]),
('db-finish-notmp',[('dawg_builder.go','''	dawg.basePool, db.basePool = db.basePool, dawg.basePool
	dawg.labelPool, db.labelPool = db.labelPool, dawg.labelPool
	dawg.flagPool, db.flagPool = db.flagPool, dawg.flagPool
''','''	oldBases, oldLabels, oldFlags := dawg.basePool, dawg.labelPool, dawg.flagPool
	dawg.basePool = db.basePool
	dawg.labelPool = db.labelPool
	dawg.flagPool = db.flagPool
	db.basePool, db.labelPool, db.flagPool = oldBases, oldLabels, oldFlags
''')]),
('db-insert-neg-last',[('dawg_builder.go','''	if value < 0 {
		return false
	}
	for i := 0; i < length; i += 1 {
		if key[i] == 0 {
			return false
		}
	}
''','''	if value < 0 || hasZero(key[:length]) {
		return false
	}
'''),('dawg_builder.go','''func (db *DawgBuilder) InsertStringValue''','''func hasZero(key []ucharType) bool {
	for _, c := range key {
		if c == 0 {
			return true
		}
	}
	return false
}

func (db *DawgBuilder) InsertStringValue''')]),
('ix-follow-once',[('indexer.go','''		var childIndex baseType = index
		if !idx.dict.Follow(bytes[i], &childIndex) {
			return NotFound
		}
		index = childIndex
	}

	if !idx.dict.HasValue(index) {
		return NotFound
	}

	return result
''','''		if !idx.dict.Follow(bytes[i], &index) {
			return NotFound
		}
	}

	if idx.dict.HasValue(index) {
		return result
	}
	return NotFound
''')]),
('ix-skip-helper',[('indexer.go','''		var childLabel ucharType = idx.guide.Child(index)
		for childLabel < bytes[i] && childLabel != 0 {
			var childIndex baseType = index
			if !idx.dict.Follow(childLabel, &childIndex) {
				return Failed
			}
			result += idx.index.ChildCount(childIndex)
			childLabel = idx.guide.Sibling(childIndex)
		}

		if childLabel == 0 {
			return NotFound
		}
''','''		skipped, found, ok := idx.countBefore(index, bytes[i])
		if !ok {
			return Failed
		}
		if !found {
			return NotFound
		}
		result += skipped
'''),('indexer.go','''func (idx *Indexer) IndexToBytes(''','''// countBefore counts the keys below the children in front of a label.
func (idx *Indexer) countBefore(index baseType, label ucharType) (count baseType, found bool, ok bool) {
	child := idx.guide.Child(index)
	for child != 0 && child < label {
		next := index
		if !idx.dict.Follow(child, &next) {
			return 0, false, false
		}
		count += idx.index.ChildCount(next)
		child = idx.guide.Sibling(next)
	}
	return count, child != 0, true
}

func (idx *Indexer) IndexToBytes(''')]),
('ix-tobytes-remaining',[('indexer.go','''			var count baseType = idx.index.ChildCount(childIndex)
			if i < cur+count {
				buf = append(buf, childLabel)
				index = childIndex
				break
			} else {
				cur += count
				childLabel = idx.guide.Sibling(childIndex)
			}
''','''			next := cur + idx.index.ChildCount(childIndex)
			if next > i {
				index = childIndex
				buf = append(buf, childLabel)
				break
			}
			cur = next
			childLabel = idx.guide.Sibling(childIndex)
''')]),
('dcb-link-helper',[('dictionary_builder.go','''			offset ^= dictIndex
			if (offset&upperMask == 0) || (offset&lowerMask == 0) {
				if db.dawg.IsLeaf(dawgChildIndex) {
					dictSetHasLeaf(&db.units[dictIndex])
				}
				dictSetOffset(&db.units[dictIndex], offset)
				return true
			}
''','''			if relative := offset ^ dictIndex; fitsOffset(relative) {
				if db.dawg.IsLeaf(dawgChildIndex) {
					dictSetHasLeaf(&db.units[dictIndex])
				}
				dictSetOffset(&db.units[dictIndex], relative)
				return true
			}
'''),('dictionary_builder.go','''	var relativeOffset baseType = index ^ offset
	if (relativeOffset&lowerMask != 0) && (relativeOffset&upperMask != 0) {
		return false
	}
''','''	if !fitsOffset(index ^ offset) {
		return false
	}
'''),('dictionary_builder.go','''// Reserves an unused unit.
''','''// Tells whether a relative offset can be stored.
func fitsOffset(relative baseType) bool {
	return relative&upperMask == 0 || relative&lowerMask == 0
}

// Reserves an unused unit.
''')]),
('dcb-arrange-merged',[('dictionary_builder.go','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for i := 0; i < len(db.labels); i++ {
		var dictChildIndex baseType = offset ^ baseType(db.labels[i])
		db.reserveUnit(dictChildIndex)

		if db.dawg.IsLeaf(dawgChildIndex) {
			dictSetHasLeaf(&db.units[dictIndex])
			dictSetValue(&db.units[dictChildIndex], db.dawg.Value(dawgChildIndex))
		} else {
			dictSetLabel(&db.units[dictChildIndex], db.labels[i])
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for _, label := range db.labels {
		child := offset ^ baseType(label)
		db.reserveUnit(child)

		if !db.dawg.IsLeaf(dawgChildIndex) {
			dictSetLabel(&db.units[child], label)
		} else {
			dictSetValue(&db.units[child], db.dawg.Value(dawgChildIndex))
			dictSetHasLeaf(&db.units[dictIndex])
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''')]),
('dcb-arrange-range',[('dictionary_builder.go','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for i := 0; i < len(db.labels); i++ {
		var dictChildIndex baseType = offset ^ baseType(db.labels[i])
		db.reserveUnit(dictChildIndex)

		if db.dawg.IsLeaf(dawgChildIndex) {
			dictSetHasLeaf(&db.units[dictIndex])
			dictSetValue(&db.units[dictChildIndex], db.dawg.Value(dawgChildIndex))
		} else {
			dictSetLabel(&db.units[dictChildIndex], db.labels[i])
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for _, label := range db.labels {
		child := offset ^ baseType(label)
		db.reserveUnit(child)

		if !db.dawg.IsLeaf(dawgChildIndex) {
			dictSetLabel(&db.units[child], label)
		} else {
			dictSetHasLeaf(&db.units[dictIndex])
			dictSetValue(&db.units[child], db.dawg.Value(dawgChildIndex))
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''')]),
('dcb-arrange-idx',[('dictionary_builder.go','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for i := 0; i < len(db.labels); i++ {
		var dictChildIndex baseType = offset ^ baseType(db.labels[i])
		db.reserveUnit(dictChildIndex)

		if db.dawg.IsLeaf(dawgChildIndex) {
			dictSetHasLeaf(&db.units[dictIndex])
			dictSetValue(&db.units[dictChildIndex], db.dawg.Value(dawgChildIndex))
		} else {
			dictSetLabel(&db.units[dictChildIndex], db.labels[i])
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for i := range db.labels {
		label := db.labels[i]
		child := offset ^ baseType(label)
		db.reserveUnit(child)

		if !db.dawg.IsLeaf(dawgChildIndex) {
			dictSetLabel(&db.units[child], label)
		} else {
			dictSetHasLeaf(&db.units[dictIndex])
			dictSetValue(&db.units[child], db.dawg.Value(dawgChildIndex))
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''')]),
('dcb-find-fallback',[('dictionary_builder.go','''	if db.unfixedIndex >= db.numOfUnits() {
		return db.numOfUnits() | (index & 0xff)
	}

	// Scans unused units to find a good offset.
	var unfixedIndex baseType = db.unfixedIndex
	for {
		var offset baseType = unfixedIndex ^ baseType(db.labels[0])
		if db.isGoodOffset(index, offset) {
			return offset
		}
		unfixedIndex = db.extra(unfixedIndex).next()
		if unfixedIndex == db.unfixedIndex {
			break
		}
	}

	return db.numOfUnits() | (index & 0xff)
''','''	fallback := db.numOfUnits() | (index & 0xff)
	start := db.unfixedIndex
	if start >= db.numOfUnits() {
		return fallback
	}

	// Scans unused units to find a good offset.
	first := baseType(db.labels[0])
	for current := start; ; {
		if db.isGoodOffset(index, current^first) {
			return current ^ first
		}
		if current = db.extra(current).next(); current == start {
			return fallback
		}
	}
''')]),
('dcb-reserve-local',[('dictionary_builder.go','''	db.extra(db.extra(index).prev()).setNext(db.extra(index).next())
	db.extra(db.extra(index).next()).setPrev(db.extra(index).prev())
	db.extra(index).setIsFixed()
''','''	next, prev := db.extra(index).next(), db.extra(index).prev()
	db.extra(prev).setNext(next)
	db.extra(next).setPrev(prev)
	db.extra(index).setIsFixed()
''')]),
('dcb-fix-unused-func',[('dictionary_builder.go','''	// Finds an unused offset.
	var unusedOffsetForLabel baseType = 0
	for offset := begin; offset != end; offset++ {
		if !db.extra(offset).isUsed() {
			unusedOffsetForLabel = offset
			break
		}
	}
''','''	unusedOffsetForLabel := db.firstUnused(begin, end)
'''),('dictionary_builder.go','''// Adjusts labels of unused units in a given block.
''','''// Finds an unused offset.
func (db *DictionaryBuilder) firstUnused(begin, end baseType) baseType {
	for offset := begin; offset < end; offset++ {
		if !db.extra(offset).isUsed() {
			return offset
		}
	}
	return 0
}

// Adjusts labels of unused units in a given block.
''')]),
('dcb-expand-consts',[('dictionary_builder.go','''	db.extra(srcNumOfUnits).setPrev(destNumOfUnits - 1)
	db.extra(destNumOfUnits - 1).setNext(srcNumOfUnits)

	// Merges 2 circular linked lists.
	db.extra(srcNumOfUnits).setPrev(db.extra(db.unfixedIndex).prev())
	db.extra(destNumOfUnits - 1).setNext(db.unfixedIndex)

	db.extra(db.extra(db.unfixedIndex).prev()).setNext(srcNumOfUnits)
	db.extra(db.unfixedIndex).setPrev(destNumOfUnits - 1)
''','''	first, last := srcNumOfUnits, destNumOfUnits-1
	db.extra(first).setPrev(last)
	db.extra(last).setNext(first)

	// Merges 2 circular linked lists.
	head := db.unfixedIndex
	db.extra(first).setPrev(db.extra(head).prev())
	db.extra(last).setNext(head)

	db.extra(db.extra(head).prev()).setNext(first)
	db.extra(head).setPrev(last)
''')]),
('rgb-turn-prev',[('ranked_guide_builder.go','''	// The first child.
	var firstLabel ucharType = rgb.links[linksBegin].label
	rgb.units[dictIndex].Child = firstLabel
	var dictChildIndex baseType = rgb.followWithoutCheck(dictIndex, firstLabel)

	// Other children.
	for i := linksBegin + 1; i < len(rgb.links); i++ {
		var siblingLabel ucharType = rgb.links[i].label

		var dictSiblingIndex = rgb.followWithoutCheck(dictIndex, siblingLabel)
		rgb.units[dictChildIndex].Sibling = siblingLabel
		dictChildIndex = dictSiblingIndex
	}
''','''	links := rgb.links[linksBegin:]
	rgb.units[dictIndex].Child = links[0].label
	previous := rgb.followWithoutCheck(dictIndex, links[0].label)

	// Other children.
	for _, link := range links[1:] {
		rgb.units[previous].Sibling = link.label
		previous = rgb.followWithoutCheck(dictIndex, link.label)
	}
''')]),
('rgb-enum-helper',[('ranked_guide_builder.go','''		var value valueType = -1
		var childLabel ucharType = rgb.dawg.Label(dawgChildIndex)
		if childLabel == 0 {
			if !rgb.dict.HasValue(dictIndex) {
				return false
			}
			value = rgb.dict.Value(dictIndex)
		} else {
			var dictChildIndex = dictIndex
			if !rgb.dict.Follow(childLabel, &dictChildIndex) {
				return false
			}

			if !rgb.buildIndices(dawgChildIndex, dictChildIndex, &value, valuesCmp) {
				return false
			}
		}
		rgb.links = append(rgb.links, RankedGuideLink{
			label: childLabel,
			value: value,
		})
	}

	return true
}
''','''		link := RankedGuideLink{label: rgb.dawg.Label(dawgChildIndex), value: -1}
		if !rgb.linkValue(dawgChildIndex, dictIndex, link.label, &link.value, valuesCmp) {
			return false
		}
		rgb.links = append(rgb.links, link)
	}

	return true
}

func (rgb *RankedGuideBuilder) linkValue(dawgIndex baseType, dictIndex baseType, label ucharType, value *valueType, valuesCmp valueComparatorFunc) bool {
	if label != 0 {
		return rgb.dict.Follow(label, &dictIndex) && rgb.buildIndices(dawgIndex, dictIndex, value, valuesCmp)
	}
	if !rgb.dict.HasValue(dictIndex) {
		return false
	}
	*value = rgb.dict.Value(dictIndex)
	return true
}
''')]),
('rgb-max-loop',[('ranked_guide_builder.go','''	for rgb.units[dictIndex].Child != 0 {
		var childLabel ucharType = rgb.units[dictIndex].Child
		if !rgb.dict.Follow(childLabel, &dictIndex) {
			return false
		}
	}
	if !rgb.dict.HasValue(dictIndex) {
		return false
	}
	*maxValue = rgb.dict.Value(dictIndex)
	return true
''','''	for {
		label := rgb.units[dictIndex].Child
		if label == 0 {
			break
		}
		if ok := rgb.dict.Follow(label, &dictIndex); !ok {
			return false
		}
	}
	if rgb.dict.HasValue(dictIndex) {
		*maxValue = rgb.dict.Value(dictIndex)
		return true
	}
	return false
''')]),
('rc-next-split',[('ranked_completer.go','''	for i := 0; i < len(rc.nodeQueue); i++ {
		var nodeIndex baseType = rc.nodeQueue[i]
		if rc.value != -1 && !rc.findSibling(&nodeIndex) {
			continue
		}
		nodeIndex = rc.findTerminal(nodeIndex)
		rc.enqueueCandidate(nodeIndex)
	}
	rc.nodeQueue = rc.nodeQueue[:0]
''','''	rc.expandQueue()
'''),('ranked_completer.go','''// Pushes a node to queue.
''','''func (rc *RankedCompleter) expandQueue() {
	for _, nodeIndex := range rc.nodeQueue {
		if rc.value == -1 || rc.findSibling(&nodeIndex) {
			rc.enqueueCandidate(rc.findTerminal(nodeIndex))
		}
	}
	rc.nodeQueue = rc.nodeQueue[:0]
}

// Pushes a node to queue.
''')]),
('rc-enqueue-ptr',[('ranked_completer.go','''	if rc.nodes[nodeIndex].isQueued {
		return
	}

	rc.nodeQueue = append(rc.nodeQueue, nodeIndex)
	rc.nodes[nodeIndex].isQueued = true
''','''	if node := &rc.nodes[nodeIndex]; !node.isQueued {
		node.isQueued = true
		rc.nodeQueue = append(rc.nodeQueue, nodeIndex)
	}
''')]),
('rc-terminal-copy',[('ranked_completer.go','''	for rc.nodes[nodeIndex].label != 0 {
		var dictIndex baseType = rc.nodes[nodeIndex].dictIndex
		var childLabel ucharType = rc.guide.Child(dictIndex)
		if childLabel == 0 {
			rc.nodes[nodeIndex].hasTerminal = false
		}

		// Follows a transition to child and creates a node for the child.
		dictIndex = rc.followWithoutCheck(dictIndex, childLabel)
		nodeIndex = rc.createNode(dictIndex, nodeIndex, childLabel)
	}
	return nodeIndex
''','''	for {
		node := &rc.nodes[nodeIndex]
		if node.label == 0 {
			return nodeIndex
		}
		child := rc.guide.Child(node.dictIndex)
		if child == 0 {
			node.hasTerminal = false
		}
		nodeIndex = rc.createNode(rc.followWithoutCheck(node.dictIndex, child), nodeIndex, child)
	}
''')]),
('rc-reverse-while',[('ranked_completer.go','''	last := len(slice) - 1
	for i := 0; i < len(slice)/2; i++ {
		slice[i], slice[last-i] = slice[last-i], slice[i]
	}
''','''	for i, j := 0, len(slice)-1; i < j; i, j = i+1, j-1 {
		slice[i], slice[j] = slice[j], slice[i]
	}
''')]),
('rc-create-len',[('ranked_completer.go','''	rc.nodes = append(rc.nodes, RankedCompleterNode{
		dictIndex:     dictIndex,
		prevNodeIndex: prevNodeIndex,
		label:         label,
		hasTerminal:   label != 0 && rc.dict.HasValue(dictIndex),
	})
	return baseType(len(rc.nodes) - 1)
''','''	index := baseType(len(rc.nodes))
	node := RankedCompleterNode{dictIndex: dictIndex, prevNodeIndex: prevNodeIndex, label: label}
	if label != 0 {
		node.hasTerminal = rc.dict.HasValue(dictIndex)
	}
	rc.nodes = append(rc.nodes, node)
	return index
''')]),
]
