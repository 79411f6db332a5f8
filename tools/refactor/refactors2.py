R=[
('db-alloc-early',[('dawg_builder.go','''	var index baseType = 0
	if len(db.unusedUnits) == 0 {
		index = baseType(len(db.unitPool))
		db.unitPool = append(db.unitPool, DawgUnit{})
	} else {
		index = db.unusedUnits[len(db.unusedUnits)-1]
		db.unusedUnits = db.unusedUnits[:len(db.unusedUnits)-1]
		db.unitPool[index].clear()
	}
	return index
''','''	if n := len(db.unusedUnits); n > 0 {
		index := db.unusedUnits[n-1]
		db.unusedUnits = db.unusedUnits[:n-1]
		db.unitPool[index] = DawgUnit{}
		return index
	}
	db.unitPool = append(db.unitPool, DawgUnit{})
	return baseType(len(db.unitPool) - 1)
''')]),
('db-hash-forloop',[('dawg_builder.go','''	for index != 0 {
		var base baseType = db.unitPool[index].base()
		var label ucharType = db.unitPool[index].label
		hashValue ^= intHash((baseType(label) << 24) ^ base)
		index = db.unitPool[index].sibling
	}
''','''	for ; index != 0; index = db.unitPool[index].sibling {
		unit := &db.unitPool[index]
		hashValue ^= hashLabelBase(unit.label, unit.base())
	}
'''),('dawg_builder.go','''		var base baseType = baseType(db.basePool[index])
		var label ucharType = db.labelPool[index]
		hashValue ^= intHash((baseType(label) << 24) ^ base)

''','''		hashValue ^= hashLabelBase(db.labelPool[index], baseType(db.basePool[index]))

'''),('dawg_builder.go','''// Calculates a hash value from a transition.
''','''func hashLabelBase(label ucharType, base baseType) baseType {
	return intHash(base ^ baseType(label)<<24)
}

// Calculates a hash value from a transition.
''')]),
('db-find-for',[('dawg_builder.go','''	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))
	for {
		var transitionId baseType = db.hashTable[*hashId]
		if transitionId == 0 {
			break
		}

		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
	}
	return 0
''','''	size := baseType(len(db.hashTable))
	slot := db.hashUnit(unitIndex) % size
	for db.hashTable[slot] != 0 {
		if db.areEqual(unitIndex, db.hashTable[slot]) {
			*hashId = slot
			return db.hashTable[slot]
		}
		slot = (slot + 1) % size
	}
	*hashId = slot
	return 0
''')]),
('db-find-result',[('dawg_builder.go','''func (db *DawgBuilder) findUnit(unitIndex baseType, hashId *baseType) baseType {
	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))
	for {
		var transitionId baseType = db.hashTable[*hashId]
		if transitionId == 0 {
			break
		}

		if db.areEqual(unitIndex, transitionId) {
			return transitionId
		}
		*hashId = (*hashId + 1) % baseType(len(db.hashTable))
	}
	return 0
''','''func (db *DawgBuilder) findUnit(unitIndex baseType) (baseType, baseType) {
	hashId := db.hashUnit(unitIndex) % baseType(len(db.hashTable))
	for {
		transitionId := db.hashTable[hashId]
		if transitionId == 0 {
			return 0, hashId
		}
		if db.areEqual(unitIndex, transitionId) {
			return transitionId, hashId
		}
		hashId = (hashId + 1) % baseType(len(db.hashTable))
	}
'''),('dawg_builder.go','''		var hashId baseType
		var matchedIndex baseType = db.findUnit(unfixedIndex, &hashId)
''','''		matchedIndex, hashId := db.findUnit(unfixedIndex)
''')]),
('db-expand-range',[('dawg_builder.go','''	var count baseType = 0
	for i := 1; i < len(db.basePool); i += 1 {
		var index = baseType(i)
		if db.labelPool[index] == 0 || db.basePool[index].isState() {
			var hashId baseType
			db.findTransition(index, &hashId)
			db.hashTable[hashId] = index
			count += 1
		}
	}
''','''	for index := baseType(1); index < baseType(len(db.basePool)); index++ {
		if db.labelPool[index] != 0 && !db.basePool[index].isState() {
			continue
		}
		var hashId baseType
		db.findTransition(index, &hashId)
		db.hashTable[hashId] = index
	}
''')]),
('db-expand-i',[('dawg_builder.go','''	var count baseType = 0
	for i := 1; i < len(db.basePool); i += 1 {
		var index = baseType(i)
		if db.labelPool[index] == 0 || db.basePool[index].isState() {
			var hashId baseType
			db.findTransition(index, &hashId)
			db.hashTable[hashId] = index
			count += 1
		}
	}
''','''	for i := 1; i < len(db.basePool); i++ {
		index := baseType(i)
		if db.labelPool[index] != 0 && !db.basePool[index].isState() {
			continue
		}
		var hashId baseType
		db.findTransition(index, &hashId)
		db.hashTable[hashId] = index
	}
''')]),
('db-fix-helpers',[('dawg_builder.go','''		var numOfSiblings sizeType = 0
		for i := unfixedIndex; i != 0; i = db.unitPool[i].sibling {
			numOfSiblings += 1
		}
''','''		numOfSiblings := db.countSiblings(unfixedIndex)
'''),('dawg_builder.go','''		var next baseType
		for current := unfixedIndex; current != 0; current = next {
			next = db.unitPool[current].sibling
			db.freeUnit(current)
		}
''','''		db.freeUnits(unfixedIndex)
'''),('dawg_builder.go','''func (db *DawgBuilder) clear() {''','''func (db *DawgBuilder) countSiblings(index baseType) sizeType {
	count := 0
	for index != 0 {
		count++
		index = db.unitPool[index].sibling
	}
	return count
}

func (db *DawgBuilder) freeUnits(index baseType) {
	for index != 0 {
		next := db.unitPool[index].sibling
		db.freeUnit(index)
		index = next
	}
}

func (db *DawgBuilder) clear() {''')]),
('db-fix-state-helper',[('dawg_builder.go','''			// Fixes units into pairs of base values and labels.
			var transitionIndex baseType = 0
			for i := 0; i < numOfSiblings; i += 1 {
				transitionIndex = db.allocateTransition()
			}
			for i := unfixedIndex; i != 0; i = db.unitPool[i].sibling {
				db.basePool[transitionIndex] = BaseUnit(db.unitPool[i].base())
				db.labelPool[transitionIndex] = db.unitPool[i].label
				transitionIndex -= 1
			}
			matchedIndex = transitionIndex + 1
''','''			matchedIndex = db.fixState(unfixedIndex, numOfSiblings)
'''),('dawg_builder.go','''func (db *DawgBuilder) clear() {''','''// Fixes units into pairs of base values and labels.
func (db *DawgBuilder) fixState(unitIndex baseType, numOfSiblings sizeType) baseType {
	var transitionIndex baseType
	for n := numOfSiblings; n > 0; n-- {
		transitionIndex = db.allocateTransition()
	}
	for i := unitIndex; i != 0; i = db.unitPool[i].sibling {
		unit := &db.unitPool[i]
		db.basePool[transitionIndex] = BaseUnit(unit.base())
		db.labelPool[transitionIndex] = unit.label
		transitionIndex--
	}
	return transitionIndex + 1
}

func (db *DawgBuilder) clear() {''')]),
('db-insert-labelhelper',[('dawg_builder.go','''		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var unitLabel ucharType = db.unitPool[childIndex].label
''','''		keyLabel := labelAt(key, length, keyPos)
		unitLabel := db.unitPool[childIndex].label
'''),('dawg_builder.go','''		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var childIndex baseType = db.allocateUnit()
''','''		keyLabel := labelAt(key, length, keyPos)
		childIndex := db.allocateUnit()
'''),('dawg_builder.go','''func (db *DawgBuilder) InsertStringValue(''','''// labelAt is the label of a key at a position, zero at its end.
func labelAt(key []ucharType, length sizeType, pos sizeType) ucharType {
	if pos < length {
		return key[pos]
	}
	return 0
}

func (db *DawgBuilder) InsertStringValue(''')]),
('db-insert-unitptr',[('dawg_builder.go','''		if db.unitPool[index].child == 0 {
			db.unitPool[childIndex].isState = true
		}
		db.unitPool[childIndex].sibling = db.unitPool[index].child
		db.unitPool[childIndex].label = keyLabel
		db.unitPool[index].child = childIndex
''','''		parent, child := &db.unitPool[index], &db.unitPool[childIndex]
		child.isState = parent.child == 0
		child.sibling = parent.child
		child.label = keyLabel
		parent.child = childIndex
''')]),
('db-insert-switch',[('dawg_builder.go','''		if keyLabel < unitLabel {
			return false
		} else if keyLabel > unitLabel {
			db.unitPool[childIndex].hasSibling = true
			db.fixUnits(childIndex)
			break
		}

		index = childIndex
		keyPos += 1
''','''		if unitLabel > keyLabel {
			return false
		}
		if unitLabel != keyLabel {
			db.unitPool[childIndex].hasSibling = true
			db.fixUnits(childIndex)
			break
		}

		keyPos++
		index = childIndex
''')]),
('db-insert-addunits',[('dawg_builder.go','''	// Adds new units.
	for keyPos <= length {
		var keyLabel ucharType = 0
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var childIndex''','''	index = db.addUnits(index, key, length, keyPos)
	db.unitPool[index].setValue(value)
	return true
}

// Adds new units.
func (db *DawgBuilder) addUnits(index baseType, key []ucharType, length sizeType, keyPos sizeType) baseType {
	for ; keyPos <= length; keyPos++ {
		var keyLabel ucharType
		if keyPos < length {
			keyLabel = key[keyPos]
		}
		var childIndex'''),('dawg_builder.go','''		db.unfixedUnits = append(db.unfixedUnits, childIndex)

		index = childIndex
		keyPos += 1
	}
	db.unitPool[index].setValue(value)
	return true
''','''		db.unfixedUnits = append(db.unfixedUnits, childIndex)

		index = childIndex
	}
	return index
''')]),
('db-areequal-split',[('dawg_builder.go','''		if db.unitPool[i].base() != baseType(db.basePool[transitionIndex]) ||
			db.unitPool[i].label != db.labelPool[transitionIndex] {
			return false
		}
		transitionIndex -= 1
''','''		if db.labelPool[transitionIndex] != db.unitPool[i].label {
			return false
		}
		if baseType(db.basePool[transitionIndex]) != db.unitPool[i].base() {
			return false
		}
		transitionIndex--
''')]),
('db-finish-reorder',[('dawg_builder.go','''	dawg.numOfStates = db.numOfStates
	dawg.numOfMergedTransitions = db.numOfMergedTransitions
	dawg.numOfMergedStates = db.numOfMergedStates()
	dawg.numOfMergingStates = db.numOfMergingStates

	dawg.basePool, db.basePool = db.basePool, dawg.basePool
	dawg.labelPool, db.labelPool = db.labelPool, dawg.labelPool
''','''	dawg.numOfMergingStates = db.numOfMergingStates
	dawg.numOfMergedStates = db.numOfMergedStates()
	dawg.numOfMergedTransitions = db.numOfMergedTransitions
	dawg.numOfStates = db.numOfStates

	dawg.labelPool, db.labelPool = db.labelPool, dawg.labelPool
	dawg.basePool, db.basePool = db.basePool, dawg.basePool
''')]),
('db-ensureinit',[('dawg_builder.go','''	// Initializes a builder if not initialized.
	if len(db.hashTable) == 0 {
		db.init()
	}

	var index baseType = 0
''','''	db.ensureInit()

	var index baseType = 0
'''),('dawg_builder.go','''	// Initializes a builder if not initialized.
	if len(db.hashTable) == 0 {
		db.init()
	}

	db.fixUnits(0)
''','''	db.ensureInit()
	db.fixUnits(0)
'''),('dawg_builder.go','''// 32-bit mix function.
''','''// Initializes a builder if not initialized.
func (db *DawgBuilder) ensureInit() {
	if len(db.hashTable) != 0 {
		return
	}
	db.init()
}

// 32-bit mix function.
''')]),
('db-insert-validate',[('dawg_builder.go','''	for i := 0; i < length; i += 1 {
		if key[i] == 0 {
			return false
		}
	}
''','''	if bytes.IndexByte(key[:length], 0) >= 0 {
		return false
	}
'''),('dawg_builder.go','package dawg\n','package dawg\n\nimport "bytes"\n')]),
('db-insert-validate-range',[('dawg_builder.go','''	for i := 0; i < length; i += 1 {
		if key[i] == 0 {
			return false
		}
	}
''','''	for _, label := range key[:length] {
		if label == 0 {
			return false
		}
	}
''')]),
('db-insert-validate-helper',[('dawg_builder.go','''	if value < 0 {
		return false
	}
	for i := 0; i < length; i += 1 {
		if key[i] == 0 {
			return false
		}
	}
''','''	if value < 0 || hasZero(key, length) {
		return false
	}
'''),('dawg_builder.go','''func (db *DawgBuilder) InsertStringValue(''','''func hasZero(key []ucharType, length sizeType) bool {
	for i := 0; i < length; i++ {
		if key[i] == 0 {
			return true
		}
	}
	return false
}

func (db *DawgBuilder) InsertStringValue(''')]),
('db-last-helper',[('dawg_builder.go','''	for db.unfixedUnits[len(db.unfixedUnits)-1] != index {
		var unfixedIndex baseType = db.unfixedUnits[len(db.unfixedUnits)-1]
		db.unfixedUnits = db.unfixedUnits[:len(db.unfixedUnits)-1]
''','''	for {
		unfixedIndex := db.popUnfixed()
		if unfixedIndex == index {
			return
		}
'''),('dawg_builder.go','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
	}
	db.unfixedUnits = db.unfixedUnits[:len(db.unfixedUnits)-1]
}
''','''		db.unitPool[db.unfixedUnits[len(db.unfixedUnits)-1]].child = matchedIndex
	}
}

func (db *DawgBuilder) popUnfixed() baseType {
	last := len(db.unfixedUnits) - 1
	index := db.unfixedUnits[last]
	db.unfixedUnits = db.unfixedUnits[:last]
	return index
}
''')]),
('db-intHash-inline',[('dawg_builder.go','''	key = ^key + (key << 15) // key = (key << 15) - key - 1;
	key = key ^ (key >> 12)
	key = key + (key << 2)
	key = key ^ (key >> 4)
	key = key * 2057 // key = (key + (key << 3)) + (key << 11);
	key = key ^ (key >> 16)
	return key
''','''	key = (key << 15) - key - 1
	key ^= key >> 12
	key += key << 2
	key ^= key >> 4
	key = (key + (key << 3)) + (key << 11)
	return key ^ (key >> 16)
''')]),
('db-new-delegate',[('dawg_builder.go','''		unitPool:               []DawgUnit{},
		hashTable:              []baseType{},
		unfixedUnits:           []baseType{},
		unusedUnits:            []baseType{},
		numOfStates:            1,
		numOfMergedTransitions: 0,
		numOfMergingStates:     0,
''','''		numOfStates:            1,
''')]),
('dict-find-viavalue',[('dictionary.go','''	var index baseType = dict.Root()
	if !dict.FollowString(key, &index) {
		return -1
	}
	if dict.HasValue(index) {
		return dict.Value(index)
	}
	return -1
''','''	var value valueType
	if !dict.FindStringValue(key, &value) {
		return -1
	}
	return value
''')]),
('dict-contains-len',[('dictionary.go','''func (dict *Dictionary) ContainsString(key string) bool {
	var index baseType = dict.Root()
	if !dict.FollowString(key, &index) {
		return false
	}
	return dict.HasValue(index)
''','''func (dict *Dictionary) ContainsString(key string) bool {
	return dict.ContainsStringLen(key, len(key))
''')]),
('dict-follow-count',[('dictionary.go','''func (dict *Dictionary) FollowString(key string, index *baseType) bool {
	for i := 0; i < len(key); i++ {
		if !dict.Follow(key[i], index) {
			return false
		}
	}
	return true
''','''func (dict *Dictionary) FollowString(key string, index *baseType) bool {
	return dict.FollowStringLen(key, len(key), index)
''')]),
('dict-locate',[('dictionary.go','''	var index baseType = dict.Root()
	if !dict.FollowString(key, &index) || !dict.HasValue(index) {
		return false
	}
	*value = dict.Value(index)
	return true
''','''	index, ok := dict.locate(key)
	if ok {
		*value = dict.Value(index)
	}
	return ok
'''),('dictionary.go','''// Follows a transition.
''','''func (dict *Dictionary) locate(key string) (baseType, bool) {
	index := dict.Root()
	ok := dict.FollowString(key, &index) && dict.HasValue(index)
	return index, ok
}

// Follows a transition.
''')]),
('dict-read-helper',[('dictionary.go','''	var baseSize baseType
	err := binary.Read(r, binary.LittleEndian, &baseSize)
	if err != nil {
		return false
	}

	var size sizeType = sizeType(baseSize)
	var unitsBuf = make([]DictionaryUnit, size)
	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
	if err != nil {
		return false
	}
''','''	var baseSize baseType
	if binary.Read(r, binary.LittleEndian, &baseSize) != nil {
		return false
	}

	unitsBuf := make([]DictionaryUnit, baseSize)
	if err := binary.Read(r, binary.LittleEndian, unitsBuf); err != nil {
		return false
	}
''')]),
('dict-write-one',[('dictionary.go','''	var baseSize baseType = baseType(dict.size)
	err := binary.Write(w, binary.LittleEndian, baseSize)
	if err != nil {
		return false
	}

	err = binary.Write(w, binary.LittleEndian, dict.units)
	if err != nil {
		return false
	}
	return true
''','''	if err := binary.Write(w, binary.LittleEndian, baseType(dict.size)); err != nil {
		return false
	}
	return binary.Write(w, binary.LittleEndian, dict.units) == nil
''')]),
('dict-followxor',[('dictionary.go','''	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
	if dictLabel(dict.units[nextIndex]) != baseType(label) {
		return false
	}
	*index = nextIndex
	return true
''','''	offset := dictOffset(dict.units[*index])
	next := *index ^ (offset ^ baseType(label))
	if dictLabel(dict.units[next]) == baseType(label) {
		*index = next
		return true
	}
	return false
''')]),
]
