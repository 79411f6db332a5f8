R=[
('dcb-blocks',[('dictionary_builder.go','''	for blockId := begin; blockId != end; blockId++ {
		db.fixBlock(blockId)
	}
''','''	for blockId := begin; blockId < end; blockId++ {
		db.fixBlock(blockId)
	}
''')]),
('dcb-unusedoffset-helper',[('dictionary_builder.go','''	// Finds an unused offset.
	var unusedOffsetForLabel baseType = 0
	for offset := begin; offset != end; offset++ {
		if !db.extra(offset).isUsed() {
			unusedOffsetForLabel = offset
			break
		}
	}
''','''	unusedOffsetForLabel := db.findUnusedOffset(begin, end)
'''),('dictionary_builder.go','''// Adjusts labels of unused units in a given block.
''','''// Finds an unused offset.
func (db *DictionaryBuilder) findUnusedOffset(begin baseType, end baseType) baseType {
	for offset := begin; offset != end; offset++ {
		if !db.extra(offset).isUsed() {
			return offset
		}
	}
	return 0
}

// Adjusts labels of unused units in a given block.
''')]),
('dcb-reserve-unlink',[('dictionary_builder.go','''	db.extra(db.extra(index).prev()).setNext(db.extra(index).next())
	db.extra(db.extra(index).next()).setPrev(db.extra(index).prev())
	db.extra(index).setIsFixed()
''','''	unit := db.extra(index)
	prev, next := unit.prev(), unit.next()
	db.extra(prev).setNext(next)
	db.extra(next).setPrev(prev)
	unit.setIsFixed()
''')]),
('dcb-expand-link',[('dictionary_builder.go','''	// Creates a circular linked list for a new block.
	for i := srcNumOfUnits + 1; i < destNumOfUnits; i++ {
		db.extra(i - 1).setNext(i)
		db.extra(i).setPrev(i - 1)
	}
''','''	// Creates a circular linked list for a new block.
	for i := srcNumOfUnits; i+1 < destNumOfUnits; i++ {
		db.extra(i).setNext(i + 1)
		db.extra(i + 1).setPrev(i)
	}
''')]),
('dcb-expand-helper',[('dictionary_builder.go','''	// Creates a circular linked list for a new block.
	for i := srcNumOfUnits + 1; i < destNumOfUnits; i++ {
		db.extra(i - 1).setNext(i)
		db.extra(i).setPrev(i - 1)
	}

	db.extra(srcNumOfUnits).setPrev(destNumOfUnits - 1)
	db.extra(destNumOfUnits - 1).setNext(srcNumOfUnits)

	// Merges''','''	db.linkBlock(srcNumOfUnits, destNumOfUnits)

	// Merges'''),('dictionary_builder.go','''// Fixes all blocks to avoid''','''// Creates a circular linked list for a new block.
func (db *DictionaryBuilder) linkBlock(begin baseType, end baseType) {
	for i := begin + 1; i < end; i++ {
		db.extra(i - 1).setNext(i)
		db.extra(i).setPrev(i - 1)
	}
	db.extra(end - 1).setNext(begin)
	db.extra(begin).setPrev(end - 1)
}

// Fixes all blocks to avoid''')]),
('dcb-expand-recycle',[('dictionary_builder.go','''		var blockId baseType = srcNumOfBlocks - numOfUnfixedBlocks
		db.extras[blockId], db.extras[len(db.extras)-1] = db.extras[len(db.extras)-1], db.extras[blockId]
''','''		var blockId baseType = srcNumOfBlocks - numOfUnfixedBlocks
		db.extras[srcNumOfBlocks] = db.extras[blockId]
		db.extras[blockId] = nil
''')]),
('dcb-isgood-helper',[('dictionary_builder.go','''	var relativeOffset baseType = index ^ offset
	if (relativeOffset&lowerMask != 0) && (relativeOffset&upperMask != 0) {
		return false
	}
''','''	if !isRepresentable(index ^ offset) {
		return false
	}
'''),('dictionary_builder.go','''			if (offset&upperMask == 0) || (offset&lowerMask == 0) {
''','''			if isRepresentable(offset) {
'''),('dictionary_builder.go','''// Reserves an unused unit.
''','''// Tells whether a relative offset fits in a unit.
func isRepresentable(relativeOffset baseType) bool {
	return relativeOffset&lowerMask == 0 || relativeOffset&upperMask == 0
}

// Reserves an unused unit.
''')]),
('dcb-isgood-range',[('dictionary_builder.go','''	for i := 1; i < len(db.labels); i++ {
		if db.extra(offset ^ baseType(db.labels[i])).isFixed() {
			return false
		}
	}
''','''	for _, label := range db.labels[1:] {
		if db.extra(offset ^ baseType(label)).isFixed() {
			return false
		}
	}
''')]),
('dcb-arrange-labels',[('dictionary_builder.go','''	var dawgChildIndex baseType = db.dawg.Child(dawgIndex)
	for dawgChildIndex != 0 {
		db.labels = append(db.labels, db.dawg.Label(dawgChildIndex))
		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''','''	for child := db.dawg.Child(dawgIndex); child != 0; child = db.dawg.Sibling(child) {
		db.labels = append(db.labels, db.dawg.Label(child))
	}
'''),('dictionary_builder.go','''	dawgChildIndex = db.dawg.Child(dawgIndex)
	for i := 0; i < len(db.labels); i++ {
		var dictChildIndex baseType = offset ^ baseType(db.labels[i])
''','''	dawgChildIndex := db.dawg.Child(dawgIndex)
	for _, label := range db.labels {
		dictChildIndex := offset ^ baseType(label)
'''),('dictionary_builder.go','''dictSetLabel(&db.units[dictChildIndex], db.labels[i])''','''dictSetLabel(&db.units[dictChildIndex], label)''')]),
('dcb-arrange-local',[('dictionary_builder.go','''	db.labels = db.labels[:0]

	var dawgChildIndex baseType = db.dawg.Child(dawgIndex)
	for dawgChildIndex != 0 {
		db.labels = append(db.labels, db.dawg.Label(dawgChildIndex))
		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
''','''	labels := db.labels[:0]
	dawgChildIndex := db.dawg.Child(dawgIndex)
	for dawgChildIndex != 0 {
		labels = append(labels, db.dawg.Label(dawgChildIndex))
		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
	db.labels = labels
''')]),
('dcb-find-do',[('dictionary_builder.go','''	var unfixedIndex baseType = db.unfixedIndex
	for {
		var offset baseType = unfixedIndex ^ baseType(db.labels[0])
		if db.isGoodOffset(index, offset) {
			return offset
		}
		unfixedIndex = db.extra(unfixedIndex).next()
		if unfixedIndex == db.unfixedIndex {
			break
		}
	}
''','''	firstLabel := baseType(db.labels[0])
	for unfixedIndex := db.unfixedIndex; ; {
		if offset := unfixedIndex ^ firstLabel; db.isGoodOffset(index, offset) {
			return offset
		}
		if unfixedIndex = db.extra(unfixedIndex).next(); unfixedIndex == db.unfixedIndex {
			break
		}
	}
''')]),
('dcb-build-dowhile',[('dictionary_builder.go','''	for {
		var dictChildIndex baseType = offset ^ baseType(db.dawg.Label(dawgChildIndex))
		if !db.buildDictionaryIndices(dawgChildIndex, dictChildIndex) {
			return false
		}

		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
		if dawgChildIndex == 0 {
			break
		}
	}
	return true
''','''	for dawgChildIndex != 0 {
		dictChildIndex := offset ^ baseType(db.dawg.Label(dawgChildIndex))
		if !db.buildDictionaryIndices(dawgChildIndex, dictChildIndex) {
			return false
		}
		dawgChildIndex = db.dawg.Sibling(dawgChildIndex)
	}
	return true
''')]),
('dcb-build-reuse',[('dictionary_builder.go','''	if db.dawg.IsMerging(dawgChildIndex) {
		var offset baseType = db.linkTable.Find(dawgChildIndex)
		if offset != 0 {
			offset ^= dictIndex
			if (offset&upperMask == 0) || (offset&lowerMask == 0) {
				if db.dawg.IsLeaf(dawgChildIndex) {
					dictSetHasLeaf(&db.units[dictIndex])
				}
				dictSetOffset(&db.units[dictIndex], offset)
				return true
			}
		}
	}
''','''	isMerging := db.dawg.IsMerging(dawgChildIndex)
	if isMerging && db.reuseOffset(dawgChildIndex, dictIndex) {
		return true
	}
'''),('dictionary_builder.go','''	if db.dawg.IsMerging(dawgChildIndex) {
		db.linkTable.Insert(dawgChildIndex, offset)
	}
''','''	if isMerging {
		db.linkTable.Insert(dawgChildIndex, offset)
	}
'''),('dictionary_builder.go','''// Arranges child nodes.
''','''func (db *DictionaryBuilder) reuseOffset(dawgChildIndex baseType, dictIndex baseType) bool {
	offset := db.linkTable.Find(dawgChildIndex)
	if offset == 0 {
		return false
	}
	offset ^= dictIndex
	if offset&upperMask != 0 && offset&lowerMask != 0 {
		return false
	}
	if db.dawg.IsLeaf(dawgChildIndex) {
		dictSetHasLeaf(&db.units[dictIndex])
	}
	dictSetOffset(&db.units[dictIndex], offset)
	return true
}

// Arranges child nodes.
''')]),
('dcb-buildboth',[('dictionary_builder.go','''func (dawg *Dawg) Build() *Dictionary {
	builder := NewDictionaryBuilder(dawg, NewDictionary())
	if !builder.BuildDictionary() {
		return nil
	}
	return builder.dict
}
''','''func (dawg *Dawg) Build() *Dictionary {
	var unused baseType
	return dawg.BuildWithUnused(&unused)
}
''')]),
('dcb-fixall-helper',[('dictionary_builder.go','''	var begin baseType = 0
	if db.numOfBlocks() > numOfUnfixedBlocks {
		begin = db.numOfBlocks() - numOfUnfixedBlocks
	}
	var end baseType = db.numOfBlocks()
''','''	end := db.numOfBlocks()
	begin := end - numOfUnfixedBlocks
	if end <= numOfUnfixedBlocks {
		begin = 0
	}
''')]),
('dcb-shift',[('dictionary_builder.go','return &db.extras[index/blockSize][index%blockSize]','block := db.extras[index>>8]\n\treturn &block[index&0xff]')]),
('du-offset-if',[('dictionary_unit.go','	return (base >> 10) << ((base & extensionBit) >> 6)','''	offset := base >> 10
	if base&extensionBit != 0 {
		offset <<= 8
	}
	return offset''')]),
('du-setoffset-mask',[('dictionary_unit.go','''	*base &= isLeafBit | hasLeafBit | 0xff
	if offset < offsetMax {
		*base |= offset << 10
	} else {
		*base |= (offset << 2) | extensionBit
	}
	return true
''','''	packed := offset << 10
	if offset >= offsetMax {
		packed = offset<<2 | extensionBit
	}
	*base = *base&(isLeafBit|hasLeafBit|0xff) | packed
	return true
''')]),
('eu-const',[('dictionary_extra_unit.go','return (eu.loValues & 1) == 1','return eu.loValues&1 != 0'),('dictionary_extra_unit.go','return (eu.hiValues & 1) == 1','return eu.hiValues%2 == 1'),('dictionary_extra_unit.go','eu.loValues = (eu.loValues & 1) | (next << 1)','eu.loValues = next<<1 | eu.loValues&1')]),
('eu-clear',[('dictionary_extra_unit.go','''	eu.loValues = 0
	eu.hiValues = 0
''','''	*eu = DictionaryExtraUnit{}
''')]),
('unit-base',[('dawg_unit.go','''	if unit.label == 0 {
		var base = unit.child << 1
		if unit.hasSibling {
			base |= 1
		}
		return base
	}
	var base = unit.child << 2
	if unit.isState {
		base |= 2
	}
	if unit.hasSibling {
		base |= 1
	}
	return base
''','''	var base baseType
	switch {
	case unit.label == 0:
		base = unit.child << 1
	case unit.isState:
		base = unit.child<<2 | 2
	default:
		base = unit.child << 2
	}
	if unit.hasSibling {
		base |= 1
	}
	return base
''')]),
('unit-base-plus',[('dawg_unit.go','''	var base = unit.child << 2
	if unit.isState {
		base |= 2
	}
	if unit.hasSibling {
		base |= 1
	}
	return base
''','''	var base = unit.child * 4
	if unit.isState {
		base += 2
	}
	if unit.hasSibling {
		base += 1
	}
	return base
''')]),
('rgb-range',[('ranked_guide_builder.go','''	for i := linksBegin + 1; i < len(rgb.links); i++ {
		var siblingLabel ucharType = rgb.links[i].label
''','''	for _, link := range rgb.links[linksBegin+1:] {
		siblingLabel := link.label
''')]),
('rgb-turn-chain',[('ranked_guide_builder.go','''		var dictSiblingIndex = rgb.followWithoutCheck(dictIndex, siblingLabel)
		rgb.units[dictChildIndex].Sibling = siblingLabel
		dictChildIndex = dictSiblingIndex
''','''		rgb.units[dictChildIndex].Sibling = siblingLabel
		dictChildIndex = rgb.followWithoutCheck(dictIndex, siblingLabel)
''')]),
('rgb-links-slice',[('ranked_guide_builder.go','''	sort.SliceStable(rgb.links[initialNumLinks:], func(i int, j int) bool {
		return linksCmp(&rgb.links[initialNumLinks+i], &rgb.links[initialNumLinks+j])
	})
''','''	links := rgb.links[initialNumLinks:]
	sort.SliceStable(links, func(i int, j int) bool {
		return linksCmp(&links[i], &links[j])
	})
''')]),
('rgb-findmax',[('ranked_guide_builder.go','''	for rgb.units[dictIndex].Child != 0 {
		var childLabel ucharType = rgb.units[dictIndex].Child
		if !rgb.dict.Follow(childLabel, &dictIndex) {
			return false
		}
	}
''','''	for {
		childLabel := rgb.units[dictIndex].Child
		if childLabel == 0 {
			break
		}
		if !rgb.dict.Follow(childLabel, &dictIndex) {
			return false
		}
	}
''')]),
('rgb-enum-value',[('ranked_guide_builder.go','''		var value valueType = -1
		var childLabel ucharType = rgb.dawg.Label(dawgChildIndex)
		if childLabel == 0 {
			if !rgb.dict.HasValue(dictIndex) {
				return false
			}
			value = rgb.dict.Value(dictIndex)
		} else {
			var dictChildIndex = dictIndex
			if !rgb.dict.Follow(childLabel, &dictChildIndex) {
				return false
			}
			if !rgb.buildIndices(dawgChildIndex, dictChildIndex, &value, valuesCmp) {
				return false
			}
		}
''','''		childLabel := rgb.dawg.Label(dawgChildIndex)
		value, ok := rgb.linkValue(dawgChildIndex, dictIndex, childLabel, valuesCmp)
		if !ok {
			return false
		}
'''),('ranked_guide_builder.go','''// Modifies units.
''','''func (rgb *RankedGuideBuilder) linkValue(dawgChildIndex baseType, dictIndex baseType, label ucharType, valuesCmp valueComparatorFunc) (valueType, bool) {
	if label == 0 {
		if !rgb.dict.HasValue(dictIndex) {
			return -1, false
		}
		return rgb.dict.Value(dictIndex), true
	}
	var value valueType = -1
	if !rgb.dict.Follow(label, &dictIndex) {
		return value, false
	}
	ok := rgb.buildIndices(dawgChildIndex, dictIndex, &value, valuesCmp)
	return value, ok
}

// Modifies units.
''')]),
('rgb-cmp-method',[('ranked_guide_link.go','''		if lhs.value != rhs.value {
			return valuesCmp(rhs.value, lhs.value)
		}
		return lhs.label < rhs.label
''','''		if lhs.value == rhs.value {
			return lhs.label < rhs.label
		}
		return valuesCmp(rhs.value, lhs.value)
''')]),
('u-emit-helper',[('utfc.go','''			lo := byte(cp & 0x7F)
			if lo == 0 {
				if !f.Follow(marker0) {
					return false
				}
			} else {
				if !f.Follow(lo) {
					return false
				}
			}
		} else { // Final case''','''			if !followByte(f, byte(cp&0x7F)) {
				return false
			}
		} else { // Final case'''),('utfc.go','''// Calls Follow(byte) on''','''func followByte(f UtfcFollower, lo byte) bool {
	if lo == 0 {
		lo = marker0
	}
	return f.Follow(lo)
}

// Calls Follow(byte) on''')]),
('u-follow-split',[('utfc.go','''		// This code point requires 21 bit to encode
		// Characters up to 0x2800 can be encoded in shorter forms, so we start from 0
		cp -= min21BitCp
		newOffs := cp & offsMask21Bit
		if st.is21Bit && newOffs == st.offs { // 2 bytes: code point is within the current alphabet
''','''		return st.followLong(cp, f)
	} else { // This code point requires max 13 bits to encode
		newOffs := cp & offsMask13Bit
		if !st.is21Bit && newOffs == st.offs { // 1 byte: code point is within the current alphabet
			lo := byte(cp & 0x7F)
			if lo == 0 {
				if !f.Follow(marker0) {
					return false
				}
			} else {
				if !f.Follow(lo) {
					return false
				}
			}
		} else { // Final case: we need 2 bytes for this character
			lo := byte(cp & 0xFF)
			if lo == 0 {
				if !f.Follow(marker10) || !f.Follow(byte(marker13Bit|(cp>>8))) {
					return false
				}
			} else {
				if !f.Follow(byte(marker13Bit|(cp>>8))) || !f.Follow(lo) {
					return false
				}
			}
			st.auxOffs = getAuxOffset(st.offs)
			if cp <= maxLatinCp {
				st.offs = 0
			} else {
				st.offs = newOffs
			}
			st.is21Bit = false
		}
	}
	return true
}

func (st *UtfcState) followLong(cp int, f UtfcFollower) bool {
	{
		// This code point requires 21 bit to encode
		// Characters up to 0x2800 can be encoded in shorter forms, so we start from 0
		cp -= min21BitCp
		newOffs := cp & offsMask21Bit
		if st.is21Bit && newOffs == st.offs { // 2 bytes: code point is within the current alphabet
'''),('utfc.go','''			st.auxOffs = st.offs
			st.offs = newOffs
			st.is21Bit = true
		}
	} else { // This code point requires max 13 bits to encode
		newOffs := cp & offsMask13Bit
		if !st.is21Bit && newOffs == st.offs { // 1 byte: code point is within the current alphabet
			lo := byte(cp & 0x7F)
			if lo == 0 {
				if !f.Follow(marker0) {
					return false
				}
			} else {
				if !f.Follow(lo) {
					return false
				}
			}
		} else { // Final case: we need 2 bytes for this character
			lo := byte(cp & 0xFF)
			if lo == 0 {
				if !f.Follow(marker10) || !f.Follow(byte(marker13Bit|(cp>>8))) {
					return false
				}
			} else {
				if !f.Follow(byte(marker13Bit|(cp>>8))) || !f.Follow(lo) {
					return false
				}
			}
			st.auxOffs = getAuxOffset(st.offs)
			if cp <= maxLatinCp {
				st.offs = 0
			} else {
				st.offs = newOffs
			}
			st.is21Bit = false
		}
	}
	return true
}
''','''			st.auxOffs = st.offs
			st.offs = newOffs
			st.is21Bit = true
		}
	}
	return true
}
''')]),
('u-inranges-enc',[('utfc.go','''	for _, rng := range ranges {
		if rng[0] <= cp && cp < rng[1] {
			return true
		}
	}
	return false
''','''	return encodeRanges(cp, ranges) >= 0
''')]),
('u-ranges-index',[('utfc.go','''	v := 0
	for _, rng := range ranges {
		if rng[0] <= cp && cp < rng[1] {
			return v + (cp - rng[0])
		}
		v += rng[1] - rng[0]
	}
	return -1
''','''	base := 0
	for i := 0; i < len(ranges); i++ {
		from, to := ranges[i][0], ranges[i][1]
		if cp >= from && cp < to {
			return base + cp - from
		}
		base += to - from
	}
	return -1
''')]),
('u-decode-runes',[('utfc.go','	str := ""\n','	runes := make([]rune, 0, len(buf))\n'),('utfc.go','		str += string(rune(cp))\n','		runes = append(runes, rune(cp))\n'),('utfc.go','''	return str
}
''','''	return string(runes)
}
''')]),
('u-decode-builder',[('utfc.go','	str := ""\n','	var sb strings.Builder\n'),('utfc.go','		str += string(rune(cp))\n','		sb.WriteRune(rune(cp))\n'),('utfc.go','''	return str
}
''','''	return sb.String()
}
'''),('utfc.go','package dawg\n','package dawg\n\nimport "strings"\n')]),
('u-decode-bytes',[('utfc.go','	str := ""\n','	var out []byte\n'),('utfc.go','		str += string(rune(cp))\n','		out = append(out, string(rune(cp))...)\n'),('utfc.go','''	return str
}
''','''	return string(out)
}
''')]),
('u-decode-next',[('utfc.go','''	i := 0
	for i < len(buf) {
''','''	i := 0
	next := func() int {
		b := int(buf[i])
		i++
		return b
	}
	for i < len(buf) {
'''),('utfc.go','''		if zm != marker0 && zm != marker00 {
			cp = int(buf[i])
			i++
		}
''','''		if zm != marker0 && zm != marker00 {
			cp = next()
		}
'''),('utfc.go','''			if zm != marker01 && zm != marker11 {
				lo = int(buf[i])
				i++
			}
''','''			if zm != marker01 && zm != marker11 {
				lo = next()
			}
''')]),
('u-follow-runes',[('utfc.go','''	for _, ch := range str {
		if !state.Follow(ch, f) {
			return false
		}
	}
	return true
''','''	for _, ch := range []rune(str) {
		if !state.Follow(ch, f) {
			return false
		}
	}
	return true
''')]),
('u-copy-deref',[('utfc.go','''	st.offs = src.offs
	st.auxOffs = src.auxOffs
	st.is21Bit = src.is21Bit
''','''	*st = *src
''')]),
('u-new-clear',[('utfc.go','''	return &UtfcState{
		offs:    0,
		auxOffs: offsInitAux,
		is21Bit: false,
	}
''','''	st := &UtfcState{}
	st.Clear()
	return st
''')]),
('u-setalpha',[('utfc.go','''				st.auxOffs = getAuxOffset(st.offs)
				st.offs = newOffs
				st.is21Bit = false
''','''				st.enterShort(newOffs)
'''),('utfc.go','''			st.auxOffs = getAuxOffset(st.offs)
			if cp <= maxLatinCp {
				st.offs = 0
			} else {
				st.offs = newOffs
			}
			st.is21Bit = false
''','''			if cp <= maxLatinCp {
				newOffs = 0
			}
			st.enterShort(newOffs)
'''),('utfc.go','''func (st *UtfcState) Follow(''','''func (st *UtfcState) enterShort(offs int) {
	st.auxOffs = getAuxOffset(st.offs)
	st.offs = offs
	st.is21Bit = false
}

func (st *UtfcState) Follow(''')]),
('u-aux-switch',[('utfc.go','''	if remappedOffs, ok := auxOffset[offs]; ok {
		return remappedOffs
	}
	return offs
''','''	remapped, ok := auxOffset[offs]
	if !ok {
		return offs
	}
	return remapped
''')]),
('m-bytescompare',[('cmd/dawgtool/main.go','''			length := len(bytes1)
			if len(bytes2) < length {
				length = len(bytes2)
			}
			for i := 0; i < length; i++ {
				if bytes1[i] < bytes2[i] {
					return true
				} else if bytes1[i] > bytes2[i] {
					return false
				}
			}
			if len(bytes1) < len(bytes2) {
				return true
			}
			return false
''','''			return bytes.Compare(bytes1, bytes2) < 0
'''),('cmd/dawgtool/main.go','''	"bufio"
''','''	"bufio"
	"bytes"
'''),('cmd/dawgtool/main.go','''	var bytes []uint8 = keyBytes(line)
	if !builder.InsertKeyValue(bytes, len(bytes), val) {
''','''	encoded := keyBytes(line)
	if !builder.InsertKeyValue(encoded, len(encoded), val) {
''')]),
('m-stringcompare',[('cmd/dawgtool/main.go','''			length := len(bytes1)
			if len(bytes2) < length {
				length = len(bytes2)
			}
			for i := 0; i < length; i++ {
				if bytes1[i] < bytes2[i] {
					return true
				} else if bytes1[i] > bytes2[i] {
					return false
				}
			}
			if len(bytes1) < len(bytes2) {
				return true
			}
			return false
''','''			return string(bytes1) < string(bytes2)
''')]),
('m-less-helper',[('cmd/dawgtool/main.go','''			bytes1 := keyBytes(buffer[i])
			bytes2 := keyBytes(buffer[j])
			length := len(bytes1)
			if len(bytes2) < length {
				length = len(bytes2)
			}
			for i := 0; i < length; i++ {
				if bytes1[i] < bytes2[i] {
					return true
				} else if bytes1[i] > bytes2[i] {
					return false
				}
			}
			if len(bytes1) < len(bytes2) {
				return true
			}
			return false
''','''			return lessBytes(keyBytes(buffer[i]), keyBytes(buffer[j]))
'''),('cmd/dawgtool/main.go','''func handleBuildDict() {''','''func lessBytes(a []uint8, b []uint8) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func handleBuildDict() {''')]),
('m-addline',[('cmd/dawgtool/main.go','''		for i := 0; i < len(buffer); i++ {
			if processLine(buffer[i]) {
				keyCount++
				if keyCount%10000 == 0 {
					fmt.Printf("no. keys: %d\\n", keyCount)
				}
			}
		}
''','''		for _, line := range buffer {
			keyCount = addLine(line, keyCount)
		}
'''),('cmd/dawgtool/main.go','''			var line string = scanner.Text()
			if processLine(line) {
				keyCount++
				if keyCount%10000 == 0 {
					fmt.Printf("no. keys: %d\\n", keyCount)
				}
			}
''','''			keyCount = addLine(scanner.Text(), keyCount)
'''),('cmd/dawgtool/main.go','''func handleBuildDict() {''','''func addLine(line string, keyCount int) int {
	if !processLine(line) {
		return keyCount
	}
	keyCount++
	if keyCount%10000 == 0 {
		fmt.Printf("no. keys: %d\\n", keyCount)
	}
	return keyCount
}

func handleBuildDict() {''')]),
('m-stats',[('cmd/dawgtool/main.go','''	fmt.Printf("no. states: %d\\n", d.NumOfStates())
	fmt.Printf("no. transitions: %d\\n", d.NumOfTransitions())
	fmt.Printf("no. merged states: %d\\n", d.NumOfMergedStates())
	fmt.Printf("no. merging states: %d\\n", d.NumOfMergingStates())
	fmt.Printf("no. merged transitions: %d\\n", d.NumOfMergedTransitions())
''','''	printStats(d)
'''),('cmd/dawgtool/main.go','''func handleBuildDict() {''','''func printStats(d *dawg.Dawg) {
	fmt.Printf("no. states: %d\\n", d.NumOfStates())
	fmt.Printf("no. transitions: %d\\n", d.NumOfTransitions())
	fmt.Printf("no. merged states: %d\\n", d.NumOfMergedStates())
	fmt.Printf("no. merging states: %d\\n", d.NumOfMergingStates())
	fmt.Printf("no. merged transitions: %d\\n", d.NumOfMergedTransitions())
}

func handleBuildDict() {''')]),
('m-clamp',[('cmd/dawgtool/main.go','''		if value < 0 {
			fmt.Printf("warning: negative value is replaced by 0: %d\\n", value)
			value = 0
		} else if value > dawg.MaxValue {
			fmt.Printf("warning: too large value is replaced by %d\\n", dawg.MaxValue)
			value = dawg.MaxValue
		}
		val = int32(value)
''','''		val = clampValue(value)
'''),('cmd/dawgtool/main.go','''func processLine(''','''func clampValue(value int) int32 {
	switch {
	case value < 0:
		fmt.Printf("warning: negative value is replaced by 0: %d\\n", value)
		return 0
	case value > dawg.MaxValue:
		fmt.Printf("warning: too large value is replaced by %d\\n", dawg.MaxValue)
		return dawg.MaxValue
	}
	return int32(value)
}

func processLine(''')]),
('m-query-helper',[('cmd/dawgtool/main.go','''			for i := 0; i < len(key); i++ {
				if !dict.Follow(key[i], &index) {
					break
				}

				// Reads a value
				if dict.HasValue(index) {
					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
				}
			}
''','''			printPrefixes(dict, key)
'''),('cmd/dawgtool/main.go','''func handleLoadDict() {''','''func printPrefixes(dict *dawg.Dictionary, key string) {
	index := dict.Root()
	for i := range []byte(key) {
		if !dict.Follow(key[i], &index) {
			return
		}
		if dict.HasValue(index) {
			fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
		}
	}
}

func handleLoadDict() {''')]),
('m-switch-idx',[('cmd/dawgtool/main.go','''				if idx == dawg.NotFound {
					fmt.Printf(" (not found)")
				} else if idx == dawg.Failed {
					fmt.Printf(" (failed)")
				} else {
					fmt.Printf(" (#%d)", idx)
				}
''','''				switch idx {
				case dawg.NotFound:
					fmt.Printf(" (not found)")
				case dawg.Failed:
					fmt.Printf(" (failed)")
				default:
					fmt.Printf(" (#%d)", idx)
				}
''')]),
('m-main-open',[('cmd/dawgtool/main.go','''	if optBuild {
		fileDictionary, err = os.Create(optDictionary)
	} else {
		fileDictionary, err = os.Open(optDictionary)
	}
''','''	open := os.Open
	if optBuild {
		open = os.Create
	}
	fileDictionary, err = open(optDictionary)
''')]),
('m-total-loop',[('cmd/dawgtool/main.go','''		for i := 0; i < int(indexer.TotalCount()); i++ {
			fmt.Printf("%d: %s\\n", i, indexer.IndexToString(uint32(i)))
		}
''','''		total := int(indexer.TotalCount())
		for i := 0; i < total; i++ {
			fmt.Printf("%d: %s\\n", i, indexer.IndexToString(uint32(i)))
		}
''')]),
('m-cut',[('cmd/dawgtool/main.go','''		line = strings.Split(line, "\\t")[0]
''','''		line, _, _ = strings.Cut(line, "\\t")
''')]),
('m-fatal',[('cmd/dawgtool/main.go','''			log.Fatalf("error: failed to write Index\\n")
''','''			log.Fatal("error: failed to write Index")
''')]),
('m-stdout',[('cmd/dawgtool/main.go','''		fmt.Println()
''','''		fmt.Printf("\\n")
''')]),
]
