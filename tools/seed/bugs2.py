BUGS=[
dict(id='C08-pool-kept', prop='C08', needs='a builder that is used again while the first automaton is still in use',
 breaks='the builder keeps the label pool it handed out, so building the next automaton overwrites the labels of the first',
 edits=[('dawg_builder.go','dawg.labelPool, db.labelPool = db.labelPool, dawg.labelPool','dawg.labelPool = db.labelPool')],
 go='''func main() {
	b := dawg.NewDawgBuilder()
	b.InsertStringValue("alpha", 1)
	b.InsertStringValue("beta", 2)
	first := dawg.NewDawg()
	b.Finish(first)
	b.InsertStringValue("gamma", 3)
	b.InsertStringValue("omega", 4)
	second := dawg.NewDawg()
	b.Finish(second)
	dict := first.Build()
	for k, v := range map[string]int32{"alpha": 1, "beta": 2, "gamma": -1} {
		if got := dict.FindString(k); got != v {
			fail("%s: %d, want %d", k, got, v)
		}
	}
}
'''),
dict(id='C10-shared-buffer', prop='C10', needs='a key obtained from an indexer that is looked at after the next conversion',
 breaks='the indexer reuses one buffer for the keys it returns, so an earlier result changes with the next call',
 edits=[('indexer.go','	var buf []ucharType = make([]ucharType, 0)\n','	var buf []ucharType = idx.buf[:0]\n'),
        ('indexer.go','				return buf\n','				idx.buf = buf\n				return buf\n'),
        ('indexer.go','type Indexer struct {\n','type Indexer struct {\n	buf   []ucharType\n')],
 go='''func main() {
	d, dict := build([]string{"aa", "bb"}, func(i int) int32 { return 0 })
	g := dawg.BuildGuide(d, dict)
	ix := dawg.NewIndexer(dict, g, dawg.BuildIndex(dict, g))
	ix.IndexToBytes(0)
	first := ix.IndexToBytes(0)
	ix.IndexToBytes(1)
	if string(first) != "aa" {
		fail("the first key became %q", first)
	}
}
'''),
dict(id='C10-pooled-encode', prop='C10', needs='an encoded key that is still in use when something else is encoded',
 breaks='UtfcEncode returns a buffer it also gives back to a pool, so the next call overwrites an earlier result',
 edits=[('utfc.go','''	buffer := &byteBuffer{
		buf: make([]byte, 0, len(str)),
	}
	UtfcFollow(str, buffer)
	return buffer.buf
''','''	buffer := encodeBuffers.Get().(*byteBuffer)
	defer encodeBuffers.Put(buffer)
	buffer.buf = buffer.buf[:0]
	UtfcFollow(str, buffer)
	return buffer.buf
'''),('utfc.go','package dawg\n','package dawg\n\nimport "sync"\n\nvar encodeBuffers = sync.Pool{New: func() interface{} { return &byteBuffer{buf: make([]byte, 0, 64)} }}\n')],
 go='''func main() {
	for i := 0; i < 100; i++ {
		a := dawg.UtfcEncode("first key")
		want := string(a)
		dawg.UtfcEncode("OTHER KEY")
		if string(a) != want {
			fail("an encoded key changed from %q to %q", want, a)
		}
	}
}
'''),
dict(id='C05-prev-clears-used', prop='C05', needs='a unit whose place is used as an offset before its list link is set',
 breaks='storing the previous-link of an extra unit also drops the mark that its index is in use as an offset',
 edits=[('dictionary_extra_unit.go','	eu.hiValues = (eu.hiValues & 1) | (prev << 1)','	eu.hiValues = prev << 1')],
 intest='''func TestVerifDemo(t *testing.T) {
	for _, prev := range []baseType{0, 1, 255, 256, 1<<24 + 3} {
		var eu DictionaryExtraUnit
		eu.setIsUsed()
		eu.setPrev(prev)
		if !eu.isUsed() || eu.prev() != prev || eu.isFixed() || eu.next() != 0 {
			t.Fatalf("setting prev %d disturbed the unit", prev)
		}
	}
}
'''),
dict(id='C07-signed-order', prop='C07', needs='keys with bytes of 128 and above next to smaller ones',
 breaks='keys are ordered by signed bytes: properly sorted keys are refused and wrongly sorted ones accepted',
 edits=[('dawg_builder.go','		if keyLabel < unitLabel {\n			return false\n		} else if keyLabel > unitLabel {','		if int8(keyLabel) < int8(unitLabel) {\n			return false\n		} else if keyLabel != unitLabel {')],
 go='''func main() {
	b := dawg.NewDawgBuilder()
	if !b.InsertString("a\\x7f") || !b.InsertString("a\\x80") || !b.InsertString("b") {
		fail("sorted keys are refused")
	}
	c := dawg.NewDawgBuilder()
	c.InsertString("\\xf0")
	if c.InsertString("a") {
		fail("an unsorted key is accepted")
	}
}
'''),
dict(id='C06-count-on-failure', prop='C06', needs='the number of bytes consumed by a lookup that fails',
 breaks='a failing counted lookup reports one byte too many',
 edits=[('dictionary.go','''func (dict *Dictionary) FollowStringLenCount(key string, length sizeType, index *baseType, count *sizeType) bool {
	for i := 0; i < length; i++ {
		if !dict.Follow(key[i], index) {
			return false
		}
		*count++
	}
''','''func (dict *Dictionary) FollowStringLenCount(key string, length sizeType, index *baseType, count *sizeType) bool {
	for i := 0; i < length; i++ {
		*count++
		if !dict.Follow(key[i], index) {
			return false
		}
	}
''')],
 go='''func main() {
	_, dict := build([]string{"abc"}, func(i int) int32 { return 0 })
	index, n := dict.Root(), 0
	if dict.FollowStringLenCount("abx", 3, &index, &n) || n != 2 {
		fail("%d bytes consumed, want 2", n)
	}
}
'''),
dict(id='C12-early-store', prop='C12', needs='a stream that ends within the units, read into an object already in use',
 breaks='a failed read of a ranked guide leaves zeroed units in place of the old ones',
 edits=[('ranked_guide.go','''	var unitsBuf = make([]GuideUnit, size)
	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
	if err != nil {
		return false
	}

	rg.units = unitsBuf
''','''	var unitsBuf = make([]GuideUnit, size)
	rg.units = unitsBuf
	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
	if err != nil {
		return false
	}

''')], imports=['bytes'],
 go='''func main() {
	d, dict := build([]string{"abc", "abd", "b"}, func(i int) int32 { return int32(i) })
	g := dawg.BuildRankedGuide(d, dict)
	var w bytes.Buffer
	if !g.Write(&w) {
		fail("write")
	}
	if g.Read(bytes.NewReader(w.Bytes()[:w.Len()-1])) {
		fail("a truncated guide is read")
	}
	rc := dawg.NewRankedCompleter(dict, g)
	rc.Start(dict.Root())
	n := 0
	for rc.Next() {
		n++
	}
	if n != 3 {
		fail("%d keys after a failed read, want 3", n)
	}
}
'''),
dict(id='C18-wide-count', prop='C18', needs='a dictionary in which 65536 or more keys lie below one position',
 breaks='subtree counts wrap at 16 bits, so numbers above are wrong',
 edits=[('index_builder.go','		ib.index.units[index] += ib.index.units[childIndex]\n','		ib.index.units[index] = (ib.index.units[index] + ib.index.units[childIndex]) & 0xffff\n')],
 go='''func main() {
	var keys []string
	for i := 0; i < 70000; i++ {
		keys = append(keys, fmt.Sprintf("%06d", i))
	}
	d, dict := build(keys, func(i int) int32 { return 0 })
	g := dawg.BuildGuide(d, dict)
	ix := dawg.NewIndexer(dict, g, dawg.BuildIndex(dict, g))
	if ix.TotalCount() != 70000 || ix.IndexToString(69999) != "069999" || ix.StringToIndex("069999") != 69999 {
		fail("total %d, last %q", ix.TotalCount(), ix.IndexToString(69999))
	}
}
'''),
dict(id='C01-repeat-max', prop='C01', needs='a key inserted twice in a row, the second time with a smaller value',
 breaks='the larger value is kept instead of the last one',
 edits=[('dawg_builder.go','	db.unitPool[index].setValue(value)\n	return true','	if value > db.unitPool[index].value() {\n		db.unitPool[index].setValue(value)\n	}\n	return true')],
 go='''func main() {
	b := dawg.NewDawgBuilder()
	b.InsertStringValue("k", 7)
	b.InsertStringValue("k", 3)
	d := dawg.NewDawg()
	b.Finish(d)
	if got := d.Build().FindString("k"); got != 3 {
		fail("%d, want 3", got)
	}
}
'''),
dict(id='C13-high-labels', prop='C13', needs='keys whose next byte is 128 or above after another child',
 breaks='siblings with labels of 128 and above are skipped',
 edits=[('completer.go','				if siblingLabel != 0 {\n					// Follows a transition to the next','				if int8(siblingLabel) > 0 {\n					// Follows a transition to the next')], go='''func main() {
	d, dict := build([]string{"aa", "a\xc3\xa9", "b"}, func(i int) int32 { return int32(i) })
	c := dawg.NewCompleter(dict, dawg.BuildGuide(d, dict))
	c.Start(dict.Root())
	n := 0
	for c.Next() {
		n++
	}
	if n != 3 {
		fail("%d keys, want 3", n)
	}
}
'''),
dict(id='C21-last-number', prop='C21', needs='a dictionary with an index, queried for its listing',
 breaks='the final listing leaves out the last key',
 edits=[('cmd/dawgtool/main.go','		for i := 0; i < int(indexer.TotalCount()); i++ {','		for i := 0; i+1 < int(indexer.TotalCount()); i++ {')],
 sh='''printf 'aa\\nbb\\n' > lex
./dawgtool -b -g -i lex dict > build.out || exit 1
./dawgtool -g -i lex dict > out || exit 1
grep -qx '1: bb' out || { cat out; exit 1; }
'''),
]
