R=[
('cb-forrange',[('ranked_completer.go','''	for i := 0; i < len(rc.nodeQueue); i++ {
		var nodeIndex baseType = rc.nodeQueue[i]
''','''	for _, queued := range rc.nodeQueue {
		var nodeIndex baseType = queued
''')]),
('rc-buildpath',[('ranked_completer.go','''	for nodeIndex != 0 {
		rc.path = append(rc.path, rc.nodes[nodeIndex].label)
		rc.enqueueNode(nodeIndex)
		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
	}
''','''	for ; nodeIndex != 0; nodeIndex = rc.nodes[nodeIndex].prevNodeIndex {
		node := &rc.nodes[nodeIndex]
		rc.path = append(rc.path, node.label)
		rc.enqueueNode(nodeIndex)
	}
''')]),
('rc-extract-path',[('ranked_completer.go','''	for nodeIndex != 0 {
		rc.path = append(rc.path, rc.nodes[nodeIndex].label)
		rc.enqueueNode(nodeIndex)
		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
	}
''','''	rc.collectPath(nodeIndex)
'''),('ranked_completer.go','''// Pushes a node to queue.
''','''// collectPath walks from a node to the root and appends the labels on the way.
func (rc *RankedCompleter) collectPath(nodeIndex baseType) {
	for nodeIndex != 0 {
		rc.path = append(rc.path, rc.nodes[nodeIndex].label)
		rc.enqueueNode(nodeIndex)
		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
	}
}

// Pushes a node to queue.
''')]),
('rc-reverse-twoidx',[('ranked_completer.go','''	last := len(slice) - 1
	for i := 0; i < len(slice)/2; i++ {
		slice[i], slice[last-i] = slice[last-i], slice[i]
	}
''','''	for i, j := 0, len(slice)-1; i < j; i, j = i+1, j-1 {
		slice[i], slice[j] = slice[j], slice[i]
	}
''')]),
('rc-copy-prefix',[('ranked_completer.go','''	for i := 0; i < length; i++ {
		rc.path[i] = prefix[i]
	}
''','''	copy(rc.path, prefix[:length])
''')]),
('c-copy-prefix',[('completer.go','''	for i := 0; i < length; i++ {
		c.path[i] = prefix[i]
	}
''','''	copy(c.path, prefix[:length])
''')]),
('c-pop-helper',[('completer.go','''				if len(c.path) > 1 {
					c.path = c.path[:len(c.path)-1]
					c.path[len(c.path)-1] = 0
				}
''','''				c.popLabel()
'''),('completer.go','''// Follows a transition.
''','''func (c *Completer) popLabel() {
	n := len(c.path)
	if n <= 1 {
		return
	}
	c.path = c.path[:n-1]
	c.path[n-2] = 0
}

// Follows a transition.
''')]),
('c-findterm-usefollow',[('completer.go','''		var label ucharType = c.guide.Child(index)
		if !c.dict.Follow(label, &index) {
			return false
		}
''','''		if !c.Follow(c.guide.Child(index), &index) {
			return false
		}
	}
	c.lastIndex = index
	c.isStarted = true
	return true
}

func (c *Completer) unusedOld(index baseType) bool {
	for !c.dict.HasValue(index) {
		var label ucharType = c.guide.Child(index)
		if !c.dict.Follow(label, &index) {
			return false
		}
''')]),
('c-next-backtrack',[('completer.go','''		if childLabel != 0 {
			// Follows a transition to the first child.
			if !c.Follow(childLabel, &index) {
				return false
			}
		} else {
			for {
''','''		if childLabel == 0 {
			if !c.backtrack(&index) {
				return false
			}
		} else if !c.Follow(childLabel, &index) {
			// Follows a transition to the first child.
			return false
		}
	}

	// Finds a terminal
	return c.FindTerminal(index)
}

func (c *Completer) backtrack(at *baseType) bool {
	var index baseType
	{
		{
			for {
'''),('completer.go','''					if !c.Follow(siblingLabel, &index) {
						return false
					}

					break
				}
			}
		}
	}

	// Finds a terminal
	return c.FindTerminal(index)
}
''','''					if !c.Follow(siblingLabel, &index) {
						return false
					}
					*at = index
					return true
				}
			}
		}
	}
}
'''),('completer.go','''				var siblingLabel ucharType = c.guide.Sibling(index)
''','''				index = c.indexStack[len(c.indexStack)-1]
				var siblingLabel ucharType = c.guide.Sibling(index)
''')]),
('ib-forloop',[('index_builder.go','''	var child ucharType = ib.guide.Child(index)
	for child != 0 {
		var childIndex baseType = index
''','''	var childIndex baseType
	for child := ib.guide.Child(index); child != 0; child = ib.guide.Sibling(childIndex) {
		childIndex = index
'''),('index_builder.go','''		child = ib.guide.Sibling(childIndex)
''','')]),
('ib-local-count',[('index_builder.go','''		if ib.index.units[childIndex] == 0 {
			if !ib.buildIndices(childIndex) {
				return false
			}
		}
''','''		if ib.index.units[childIndex] == 0 && !ib.buildIndices(childIndex) {
			return false
		}
''')]),
('ix-helper-count',[('indexer.go','''		var childLabel ucharType = idx.guide.Child(index)
		for childLabel < bytes[i] && childLabel != 0 {
			var childIndex baseType = index
			if !idx.dict.Follow(childLabel, &childIndex) {
				return Failed
			}
			result += idx.index.ChildCount(childIndex)
			childLabel = idx.guide.Sibling(childIndex)
		}
''','''		childLabel, skipped, ok := idx.skipSmaller(index, bytes[i])
		if !ok {
			return Failed
		}
		result += skipped
'''),('indexer.go','''func (idx *Indexer) IndexToBytes(''','''func (idx *Indexer) skipSmaller(index baseType, label ucharType) (ucharType, baseType, bool) {
	var count baseType
	childLabel := idx.guide.Child(index)
	for childLabel != 0 && childLabel < label {
		childIndex := index
		if !idx.dict.Follow(childLabel, &childIndex) {
			return 0, 0, false
		}
		count += idx.index.ChildCount(childIndex)
		childLabel = idx.guide.Sibling(childIndex)
	}
	return childLabel, count, true
}

func (idx *Indexer) IndexToBytes(''')]),
('ix-range-bytes',[('indexer.go','''	for i := 0; i < len(bytes); i++ {
''','''	for _, b := range bytes {
'''),('indexer.go','for childLabel < bytes[i] && childLabel != 0 {','for childLabel != 0 && childLabel < b {'),('indexer.go','idx.dict.Follow(bytes[i], &childIndex)','idx.dict.Follow(b, &childIndex)')]),
('ix-direct-follow',[('indexer.go','''		var childIndex baseType = index
		if !idx.dict.Follow(bytes[i], &childIndex) {
			return NotFound
		}
		index = childIndex
''','''		if !idx.dict.Follow(bytes[i], &index) {
			return NotFound
		}
''')]),
('lt-for',[('link_table.go','''	for lt.hashTable[hashId].index != 0 {
		if index == lt.hashTable[hashId].index {
			return hashId
		}
		hashId = (hashId + 1) % baseType(len(lt.hashTable))
	}
	return hashId
''','''	for {
		stored := lt.hashTable[hashId].index
		if stored == 0 || stored == index {
			return hashId
		}
		hashId = (hashId + 1) % baseType(len(lt.hashTable))
	}
''')]),
('lt-size-local',[('link_table.go','''	var hashId baseType = intHash(index) % baseType(len(lt.hashTable))
	for''','''	size := baseType(len(lt.hashTable))
	hashId := intHash(index) % size
	for'''),('link_table.go','hashId = (hashId + 1) % baseType(len(lt.hashTable))','''hashId++
		if hashId == size {
			hashId = 0
		}''')]),
('lt-insert-pair',[('link_table.go','''	lt.hashTable[hashId].index = index
	lt.hashTable[hashId].offset = offset
''','''	lt.hashTable[hashId] = linkPair{index: index, offset: offset}
''')]),
('bp-divmod',[('bit_pool.go','return pool.words[index>>6]&(1<<uint8(index&63)) != 0','return (pool.words[index/64]>>(index%64))&1 == 1')]),
('bp-setelse',[('bit_pool.go','''	if bit {
		pool.words[index>>6] |= 1 << uint8(index&63)
		return
	}
	pool.words[index>>6] &^= 1 << uint8(index&63)
''','''	mask := uint64(1) << (index & 63)
	if bit {
		pool.words[index>>6] |= mask
	} else {
		pool.words[index>>6] &= ^mask
	}
''')]),
('gb-while',[('guide_builder.go','''	for {
		var childLabel''','''	for dawgChildIndex != 0 {
		var childLabel'''),('guide_builder.go','''		dawgChildIndex = dawgSiblingIndex
		if dawgChildIndex == 0 {
			return true
		}
	}
''','''		dawgChildIndex = dawgSiblingIndex
	}
	return true
''')]),
('gb-bit-helper',[('guide_builder.go','''	gb.isFixedTable[index/8] |= 1 << (index % 8)
''','''	pos, mask := bitOf(index)
	gb.isFixedTable[pos] |= mask
'''),('guide_builder.go','''	return gb.isFixedTable[index/8]&(1<<(index%8)) != 0
''','''	pos, mask := bitOf(index)
	return gb.isFixedTable[pos]&mask != 0
}

func bitOf(index baseType) (baseType, ucharType) {
	return index >> 3, ucharType(1) << (index & 7)
''')]),
('gb-boolslice',[('guide_builder.go','isFixedTable []ucharType // why not use bit pool instead?','isFixedTable []bool'),('guide_builder.go','gb.isFixedTable = make([]ucharType, gb.dict.size/8)','gb.isFixedTable = make([]bool, gb.dict.size)'),
 ('guide_builder.go','gb.isFixedTable[index/8] |= 1 << (index % 8)','gb.isFixedTable[index] = true'),('guide_builder.go','return gb.isFixedTable[index/8]&(1<<(index%8)) != 0','return gb.isFixedTable[index]')]),
]
