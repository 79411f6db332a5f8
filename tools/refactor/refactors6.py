R=[
('u-aux-helper',[('utfc.go','''	} else if st.auxOffs != 0 && cp >= st.auxOffs && cp <= st.auxOffs+0x3F {
''','''	} else if st.inAux(cp) {
'''),('utfc.go','''// Calls Follow(byte) on the follower for each''','''// inAux tells whether a code point is in the (non-Latin) auxiliary alphabet.
func (st *UtfcState) inAux(cp int) bool {
	if st.auxOffs == 0 {
		return false
	}
	d := cp - st.auxOffs
	return d >= 0 && d < 0x40
}

// Calls Follow(byte) on the follower for each''')]),
('u-pair-helper',[('utfc.go','''				if !f.Follow(marker10) || !f.Follow(byte(markerExtra|(1+(extra>>8)))) {
					return false
				}
			} else {
				if !f.Follow(byte(markerExtra|(1+(extra>>8)))) || !f.Follow(lo) {
					return false
				}
			}
''','''				if !followPair(f, marker10, byte(markerExtra|(1+(extra>>8)))) {
					return false
				}
			} else if !followPair(f, byte(markerExtra|(1+(extra>>8))), lo) {
				return false
			}
'''),('utfc.go','''				if !f.Follow(marker10) || !f.Follow(byte(marker13Bit|(cp>>8))) {
					return false
				}
			} else {
				if !f.Follow(byte(marker13Bit|(cp>>8))) || !f.Follow(lo) {
					return false
				}
			}
''','''				if !followPair(f, marker10, byte(marker13Bit|(cp>>8))) {
					return false
				}
			} else if !followPair(f, byte(marker13Bit|(cp>>8)), lo) {
				return false
			}
'''),('utfc.go','''// Calls Follow(byte) on the follower for each''','''func followPair(f UtfcFollower, a byte, b byte) bool {
	return f.Follow(a) && f.Follow(b)
}

// Calls Follow(byte) on the follower for each''')]),
('u-switch-state',[('utfc.go','''			st.auxOffs = st.offs
			st.offs = newOffs
			st.is21Bit = true
''','''			*st = UtfcState{offs: newOffs, auxOffs: st.offs, is21Bit: true}
''')]),
('u-follow-deferred-ok',[('utfc.go','''	for _, ch := range str {
		if !state.Follow(ch, f) {
			return false
		}
	}
	return true
}
''','''	ok := true
	for _, ch := range str {
		if ok = state.Follow(ch, f); !ok {
			break
		}
	}
	return ok
}
''')]),
('u-encode-direct',[('utfc.go','''	buffer := &byteBuffer{
		buf: make([]byte, 0, len(str)),
	}
	UtfcFollow(str, buffer)
	return buffer.buf
''','''	var buffer byteBuffer
	buffer.buf = make([]byte, 0, len(str))
	UtfcFollow(str, &buffer)
	return buffer.buf
''')]),
('u-encode-state',[('utfc.go','''	UtfcFollow(str, buffer)
	return buffer.buf
''','''	state := NewUtfcState()
	for _, ch := range str {
		state.Follow(ch, buffer)
	}
	return buffer.buf
''')]),
('u-ranges-init',[('utfc.go','''var rangesLatin = [][]int{
	{0x41, 0x5B}, {0x61, 0x7B}, {0x30, 0x3A},
	{0x20, 0x21}, {0x2D, 0x2E},
}
''','''var rangesLatin = [][]int{
	{'A', 'Z' + 1}, {'a', 'z' + 1}, {'0', '9' + 1},
	{' ', ' ' + 1}, {'-', '-' + 1},
}
''')]),
('u-decode-read-helper',[('utfc.go','''			hi := 0
			if zm != marker10 && zm != marker11 {
				hi = int(buf[i])
				i++
			}
			lo := 0
			if zm != marker01 && zm != marker11 {
				lo = int(buf[i])
				i++
			}
			cp = (cp^marker21Bit)<<16 | hi<<8 | lo
''','''			var hi, lo int
			hi, i = optional(buf, i, zm != marker10 && zm != marker11)
			lo, i = optional(buf, i, zm != marker01 && zm != marker11)
			cp = (cp^marker21Bit)<<16 | hi<<8 | lo
'''),('utfc.go','''// UtfcDecode converts UTF-C byte array to a string
''','''func optional(buf []byte, i int, there bool) (int, int) {
	if !there {
		return 0, i
	}
	return int(buf[i]), i + 1
}

// UtfcDecode converts UTF-C byte array to a string
''')]),
('u-decode-for',[('utfc.go','''	i := 0
	for i < len(buf) {
		zm := 0
''','''	for i := 0; i < len(buf); {
		zm := 0
''')]),
('u-decode-latin-helper',[('utfc.go','''			auxOffs = getAuxOffset(offs)
			if cp <= maxLatinCp {
				offs = 0
			} else {
				offs = cp & offsMask13Bit
			}
			is21Bit = false
''','''			auxOffs, offs, is21Bit = getAuxOffset(offs), alphabet(cp), false
'''),('utfc.go','''			if cp <= maxLatinCp {
				st.offs = 0
			} else {
				st.offs = newOffs
			}
''','''			st.offs = alphabet(cp)
'''),('utfc.go','''func NewUtfcState() *UtfcState {
''','''// alphabet is the window of a code point in 13-bit mode.
func alphabet(cp int) int {
	if cp > maxLatinCp {
		return cp & offsMask13Bit
	}
	return 0
}

func NewUtfcState() *UtfcState {
''')]),
('dict-find-ok',[('dictionary.go','''func (dict *Dictionary) FindString(key string) valueType {
	var index baseType = dict.Root()
	if !dict.FollowString(key, &index) {
		return -1
	}
	if dict.HasValue(index) {
		return dict.Value(index)
	}
	return -1
}
''','''func (dict *Dictionary) FindString(key string) valueType {
	return dict.FindStringLen(key, len(key))
}
''')]),
('dict-follow-delegate',[('dictionary.go','''func (dict *Dictionary) FollowString(key string, index *baseType) bool {
	for i := 0; i < len(key); i++ {
		if !dict.Follow(key[i], index) {
			return false
		}
	}
	return true
}
''','''func (dict *Dictionary) FollowString(key string, index *baseType) bool {
	return dict.FollowStringLen(key, len(key), index)
}
''')]),
('dict-follow-bytes',[('dictionary.go','''func (dict *Dictionary) FollowString(key string, index *baseType) bool {
	for i := 0; i < len(key); i++ {
		if !dict.Follow(key[i], index) {
			return false
		}
	}
	return true
}
''','''func (dict *Dictionary) FollowString(key string, index *baseType) bool {
	for _, label := range []ucharType(key) {
		if !dict.Follow(label, index) {
			return false
		}
	}
	return true
}
''')]),
('dict-follow-discard',[('dictionary.go','''func (dict *Dictionary) FollowStringLen(key string, length sizeType, index *baseType) bool {
	for i := 0; i < length; i++ {
		if !dict.Follow(key[i], index) {
			return false
		}
	}
	return true
}
''','''func (dict *Dictionary) FollowStringLen(key string, length sizeType, index *baseType) bool {
	var ignored sizeType
	return dict.FollowStringLenCount(key, length, index, &ignored)
}
''')]),
('dict-follow-step',[('dictionary.go','''	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
	if dictLabel(dict.units[nextIndex]) != baseType(label) {
		return false
	}
	*index = nextIndex
	return true
''','''	current := *index
	next := dictOffset(dict.units[current]) ^ current ^ baseType(label)
	ok := dictLabel(dict.units[next]) == baseType(label)
	if ok {
		*index = next
	}
	return ok
''')]),
('dict-value-helper',[('dictionary.go','''	if !dict.FollowString(key, &index) || !dict.HasValue(index) {
		return false
	}
	*value = dict.Value(index)
	return true
''','''	if dict.FollowString(key, &index) && dict.HasValue(index) {
		*value = dict.Value(index)
		return true
	}
	return false
''')]),
('c-next-climb',[('completer.go','''			for {
				var siblingLabel ucharType = c.guide.Sibling(index)

				// Moves to the previous node
				if len(c.path) > 1 {
					c.path = c.path[:len(c.path)-1]
					c.path[len(c.path)-1] = 0
				}
				c.indexStack = c.indexStack[:len(c.indexStack)-1]
				if len(c.indexStack) == 0 {
					return false
				}

				index = c.indexStack[len(c.indexStack)-1]
				if siblingLabel != 0 {
					// Follows a transition to the next sibling.
					if !c.Follow(siblingLabel, &index) {
						return false
					}
					break
				}
			}
''','''			var siblingLabel ucharType
			for siblingLabel == 0 {
				siblingLabel = c.guide.Sibling(index)

				// Moves to the previous node
				if n := len(c.path); n > 1 {
					c.path = c.path[:n-1]
					c.path[n-2] = 0
				}
				depth := len(c.indexStack) - 1
				c.indexStack = c.indexStack[:depth]
				if depth == 0 {
					return false
				}
				index = c.indexStack[depth-1]
			}
			// Follows a transition to the next sibling.
			if !c.Follow(siblingLabel, &index) {
				return false
			}
''')]),
('c-findterm-push',[('completer.go','''		var label ucharType = c.guide.Child(index)
		if !c.dict.Follow(label, &index) {
			return false
		}

		c.path[len(c.path)-1] = label
		c.path = append(c.path, 0)
		c.indexStack = append(c.indexStack, index)
	}
''','''		if !c.Follow(c.guide.Child(index), &index) {
			return false
		}
	}
''')]),
('index-childcount',[('index.go','''func (index *Index) TotalCount() baseType {
	return baseType(index.units[0])
}
''','''func (index *Index) TotalCount() baseType {
	return index.ChildCount(index.Root())
}
''')]),
]
