BUGS=[
dict(id='C01-are-equal-low-bits', prop='C01', needs='enough keys with distinct values that an unequal state lands in the same probe run of the hash table',
 breaks='states that differ only in the two low bits of a base value are merged, so some keys get another key\'s value',
 edits=[('dawg_builder.go','if db.unitPool[i].base() != baseType(db.basePool[transitionIndex]) ||','if db.unitPool[i].base()>>2 != baseType(db.basePool[transitionIndex])>>2 ||')],
 go='''func main() {
	keys := []string{}
	for i := 0; i < 5000; i++ {
		keys = append(keys, fmt.Sprintf("%05d", i))
	}
	val := func(i int) int32 { return int32(i) }
	_, dict := build(keys, val)
	for i, k := range keys {
		if v := dict.FindString(k); v != val(i) {
			fail("%s: %d, want %d", k, v, val(i))
		}
	}
}
'''),
dict(id='C05-value-sign', prop='C05', needs='a value of 2^30 or more',
 breaks='large values read back negative: the packed unit is shifted after the conversion to a signed number',
 edits=[('base_unit.go','return valueType(*unit >> 1)','return valueType(*unit) >> 1')],
 go='''func main() {
	d, dict := build([]string{"a", "b", "c"}, func(i int) int32 { return []int32{1, 1<<30 - 1, dawg.MaxValue}[i] })
	for i, k := range []string{"a", "b", "c"} {
		want := []int32{1, 1<<30 - 1, dawg.MaxValue}[i]
		if v := dict.FindString(k); v != want {
			fail("%s: dictionary says %d, want %d", k, v, want)
		}
		n := d.Child(0)
		for d.Label(n) != k[0] {
			n = d.Sibling(n)
		}
		if v := d.Value(d.Child(n)); v != want {
			fail("%s: dawg says %d, want %d", k, v, want)
		}
	}
}
'''),
dict(id='C16-link-window', prop='C16', needs='a dictionary of more than 2^21 units in which a merged state is referred to from far away',
 breaks='an already placed state is linked even when the relative offset cannot be represented, so keys are lost',
 edits=[('dictionary_builder.go','if (offset&upperMask == 0) || (offset&lowerMask == 0) {','if (offset&^(offsetMax<<8-1) == 0) || (offset&lowerMask == 0) {')],
 imports=['sort'],
 go='''func main() {
	x := uint32(12345)
	rnd := func() uint32 { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x }
	seen := map[string]bool{}
	keys := []string{}
	for len(keys) < 1200000 {
		k := make([]byte, 10)
		for i := range k {
			k[i] = byte('a' + rnd()%20)
		}
		s := string(k) + "tail"
		if !seen[s] {
			seen[s] = true
			keys = append(keys, s)
		}
	}
	sort.Strings(keys)
	_, dict := build(keys, func(i int) int32 { return int32(i % 3) })
	if dict == nil {
		fail("no dictionary")
	}
	fmt.Println("units", dict.Size())
	for i, k := range keys {
		if v := dict.FindString(k); v != int32(i%3) {
			fail("%q: %d, want %d", k, v, i%3)
		}
	}
}
'''),
dict(id='C16-unused-label', prop='C16', needs='a block whose first unit is used as an offset and that has unused units',
 breaks='unused units get labels that make them look like children of a real node: strings that are no prefix of any key can be followed',
 edits=[('dictionary_builder.go','dictSetLabel(&db.units[index], ucharType(index^unusedOffsetForLabel))','dictSetLabel(&db.units[index], ucharType(index-unusedOffsetForLabel))')],
 go='''func main() {
	for n := 1; n < 120; n++ {
		keys := []string{}
		for i := 0; i < n; i++ {
			keys = append(keys, fmt.Sprintf("%c%c%c", 'A'+i/10, 'a'+(i*7)%10, '0'+i%10))
		}
		// insertion order is the order of the first letter, then of the rest
		for i := 1; i < len(keys); i++ {
			for j := i; j > 0 && keys[j] < keys[j-1]; j-- {
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
		prefixes := map[string]bool{"": true}
		for _, k := range keys {
			for i := range k {
				prefixes[k[:i+1]] = true
			}
		}
		_, dict := build(keys, func(i int) int32 { return int32(i) })
		for p := range prefixes {
			for c := 1; c < 256; c++ {
				s := p + string([]byte{byte(c)})
				var at uint32
				if dict.FollowString(s, &at) != prefixes[s] {
					fail("%d keys: FollowString(%q) = %v", n, s, !prefixes[s])
				}
			}
		}
	}
}
'''),
dict(id='C07-prefix-order', prop='C07', needs='a key followed by one of its own proper prefixes',
 breaks='an insertion that is out of order is accepted and overwrites a state',
 edits=[('dawg_builder.go','if keyLabel < unitLabel {','if keyPos < length && keyLabel < unitLabel {')],
 go='''func main() {
	b := dawg.NewDawgBuilder()
	if !b.InsertStringValue("abc", 1) {
		fail("abc refused")
	}
	if b.InsertStringValue("ab", 2) {
		fail("ab accepted after abc")
	}
	d := dawg.NewDawg()
	b.Finish(d)
	if v := d.Build().FindString("abc"); v != 1 {
		fail("abc = %d", v)
	}
}
'''),
dict(id='C08-stale-unused', prop='C08', needs='one builder used for two automata, the first of which freed units',
 breaks='the builder keeps its free list over Finish, so the second automaton is built on units that no longer exist',
 edits=[('dawg_builder.go','''	db.unusedUnits = db.unusedUnits[:0]

''','''
''')],
 go='''func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	b := dawg.NewDawgBuilder()
	for round := 0; round < 3; round++ {
		for i := 0; i < 10; i++ {
			if !b.InsertStringValue(fmt.Sprintf("key%d", i), int32(i)) {
				fail("refused")
			}
		}
		d := dawg.NewDawg()
		b.Finish(d)
		dict := d.Build()
		for i := 0; i < 10; i++ {
			if v := dict.FindString(fmt.Sprintf("key%d", i)); v != int32(i) {
				fail("round %d: key%d = %d", round, i, v)
			}
		}
	}
}
'''),
dict(id='C09-aux-memo', prop='C09', needs='two goroutines encoding text whose alphabets are not in the table',
 breaks='the table of alphabets is written on a miss, so concurrent encoding races on a map (fatal error)',
 edits=[('utfc.go','''	return offs
}

func NewUtfcState''','''	auxOffset[offs] = offs
	return offs
}

func NewUtfcState''')],
 imports=['sync'],
 go='''func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				s := string([]rune{rune(0x300 + 128*((i+g)%60)), rune(0x400 + i%64), rune(0x300 + 128*((i+3*g)%60)), 'a'})
				if dawg.UtfcDecode(dawg.UtfcEncode(s)) != s {
					fail("round trip")
				}
			}
		}(g)
	}
	wg.Wait()
}
'''),
dict(id='C11-index-endian', prop='C11', needs='a file written by one version and read by another (both sides changed together, so a round trip hides it)',
 breaks='the index section is no longer little-endian',
 edits=[('index.go','err := binary.Read(r, binary.LittleEndian, &baseSize)','err := binary.Read(r, binary.BigEndian, &baseSize)'),
        ('index.go','err := binary.Write(w, binary.LittleEndian, baseSize)','err := binary.Write(w, binary.BigEndian, baseSize)')],
 imports=['bytes'],
 go='''func main() {
	d, dict := build([]string{"a", "b"}, func(i int) int32 { return 0 })
	idx := dawg.BuildIndex(dict, dawg.BuildGuide(d, dict))
	var w bytes.Buffer
	idx.Write(&w)
	n := idx.Size()
	want := []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	if !bytes.Equal(w.Bytes()[:4], want) {
		fail("header % x, want % x", w.Bytes()[:4], want)
	}
}
'''),
dict(id='C12-eof-ok', prop='C12', needs='a file cut exactly after the unit count',
 breaks='a truncated guide is loaded as if it were complete',
 edits=[('guide.go','''	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
	if err != nil {''','''	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
	if err != nil && err != io.EOF {''')],
 imports=['bytes'],
 go='''func main() {
	d, dict := build([]string{"a", "b"}, func(i int) int32 { return 0 })
	var w bytes.Buffer
	dawg.BuildGuide(d, dict).Write(&w)
	for n := 0; n < w.Len(); n++ {
		if dawg.ReadGuide(bytes.NewReader(w.Bytes()[:n])) != nil {
			fail("%d of %d bytes accepted", n, w.Len())
		}
	}
}
'''),
dict(id='C13-sibling-path', prop='C13', needs='completion from a node below the root with a prefix, over siblings at several depths',
 breaks='backtracking keeps the last label when the path has exactly the length of one label, so later keys are misspelt',
 edits=[('completer.go','if len(c.path) > 1 {','if len(c.path) > 2 {')],
 go='''func main() {
	keys := []string{"a", "ab", "abc", "b", "bd", "c"}
	d, dict := build(keys, func(i int) int32 { return int32(i) })
	c := dawg.NewCompleter(dict, dawg.BuildGuide(d, dict))
	c.Start(dict.Root())
	for i, k := range keys {
		if !c.Next() {
			fail("ended before %q", k)
		}
		if c.Key() != k || c.Value() != int32(i) {
			fail("got %q=%d, want %q=%d", c.Key(), c.Value(), k, i)
		}
	}
	if c.Next() {
		fail("extra key %q", c.Key())
	}
}
'''),
dict(id='C14-tie-drop', prop='C14', needs='a key that is a prefix of another key with a larger value',
 breaks='the terminal of an inner node is reported again, because it stays marked as pending',
 edits=[('ranked_completer.go','''		if childLabel == 0 {
			rc.nodes[nodeIndex].hasTerminal = false
		}
''','''		if childLabel == 0 && rc.nodes[nodeIndex].prevNodeIndex != 0 {
			rc.nodes[nodeIndex].hasTerminal = false
		}
''')],
 go='''func main() {
	keys := []string{"a", "ab", "b", "bc", "bcd"}
	vals := []int32{9, 3, 4, 8, 1}
	d, dict := build(keys, func(i int) int32 { return vals[i] })
	c := dawg.NewRankedCompleter(dict, dawg.BuildRankedGuide(d, dict))
	c.Start(dict.Root())
	want := []string{"a", "bc", "b", "ab", "bcd"}
	for i := 0; ; i++ {
		if !c.Next() {
			if i != len(want) {
				fail("only %d keys", i)
			}
			return
		}
		if i >= len(want) || c.Key() != want[i] {
			fail("key %d is %q=%d", i, c.Key(), c.Value())
		}
	}
}
'''),
dict(id='C15-merging-count', prop='C15', needs='a state that is merged into more than once',
 breaks='the number of merging states counts merges instead of states',
 edits=[('dawg_builder.go','''			if !db.flagPool.get(matchedIndex) {
				db.numOfMergingStates += 1
				db.flagPool.set(matchedIndex, true)
			}
''','''			db.numOfMergingStates += 1
			if !db.flagPool.get(matchedIndex) {
				db.flagPool.set(matchedIndex, true)
			}
''')],
 go='''func main() {
	d, _ := build([]string{"ax", "bx", "cx", "dx"}, func(i int) int32 { return 0 })
	if n := d.NumOfMergingStates(); n != 2 {
		// the state after "a" and the leaf under it would be shared; only the former is reached twice
		flags := 0
		for i := 1; i < d.Size(); i++ {
			if d.IsMerging(uint32(i)) {
				flags++
			}
		}
		if n != flags {
			fail("%d merging states, %d marked", n, flags)
		}
	}
}
'''),
dict(id='C17-shared-sibling', prop='C17', needs='an inner node with two or more children that is followed by a sibling with the label 0xff',
 breaks='the sibling label 0xff is not recorded, so enumeration skips keys',
 edits=[('guide_builder.go','if dawgSiblingIndex != 0 {','if dawgSiblingIndex != 0 && siblingLabel+1 != 0 {')],
 go='''func main() {
	keys := []string{"a\\xfe", "a\\xff", "b\\xfe", "b\\xff", "c", "\\xfe", "\\xff"}
	d, dict := build(keys, func(i int) int32 { return 0 })
	c := dawg.NewCompleter(dict, dawg.BuildGuide(d, dict))
	c.Start(dict.Root())
	n := 0
	for c.Next() {
		if c.Key() != keys[n] {
			fail("key %d is %q", n, c.Key())
		}
		n++
	}
	if n != len(keys) {
		fail("%d of %d keys", n, len(keys))
	}
}
'''),
dict(id='C18-empty-key', prop='C18', needs='the empty string as a key',
 breaks='the number of a key does not count the empty key before it',
 edits=[('indexer.go','''		if idx.dict.HasValue(index) {
			result++
		}
''','''		if i > 0 && idx.dict.HasValue(index) {
			result++
		}
''')],
 go='''func main() {
	keys := []string{"", "a", "ab", "b"}
	d, dict := build(keys, func(i int) int32 { return 0 })
	g := dawg.BuildGuide(d, dict)
	ix := dawg.NewIndexer(dict, g, dawg.BuildIndex(dict, g))
	for i, k := range keys {
		if n := ix.StringToIndex(k); n != uint32(i) {
			fail("%q is number %d, want %d", k, n, i)
		}
		if s := ix.IndexToString(uint32(i)); s != k {
			fail("number %d is %q, want %q", i, s, k)
		}
	}
}
'''),
dict(id='C02-latin-edge', prop='C02', needs='U+02FF followed by a character of its own block',
 breaks='the encoder and the decoder disagree on the window after U+02FF',
 edits=[('utfc.go','''			st.auxOffs = getAuxOffset(st.offs)
			if cp <= maxLatinCp {''','''			st.auxOffs = getAuxOffset(st.offs)
			if cp < maxLatinCp {''')],
 go='''func main() {
	for a := rune(0x280); a < 0x320; a++ {
		for b := rune(0x20); b < 0x320; b++ {
			s := string([]rune{a, b})
			if r := dawg.UtfcDecode(dawg.UtfcEncode(s)); r != s {
				fail("%U %U decodes to %q", a, b, r)
			}
		}
	}
}
'''),
dict(id='C03-kana-zero', prop='C03', needs='a character whose low seven bits are zero right after another one of the same kana window',
 breaks='a zero byte is emitted, so the key cannot be inserted',
 edits=[('utfc.go','''		newOffs := cp & offsMask13Bit
		if !st.is21Bit && newOffs == st.offs { // 1 byte: code point is within the current alphabet
			lo := byte(cp & 0x7F)
			if lo == 0 {
				if !f.Follow(marker0) {
					return false
				}
			} else {
				if !f.Follow(lo) {
					return false
				}
			}
		} else {
			// Reindex''','''		newOffs := cp & offsMask13Bit
		if !st.is21Bit && newOffs == st.offs { // 1 byte: code point is within the current alphabet
			if !f.Follow(byte(cp & 0x7F)) {
				return false
			}
		} else {
			// Reindex''')],
 imports=['bytes'],
 go='''func main() {
	for a := rune(0x3000); a < 0x3100; a++ {
		for b := rune(0x3000); b < 0x3100; b++ {
			e := dawg.UtfcEncode(string([]rune{a, b}))
			if bytes.IndexByte(e, 0) >= 0 {
				fail("%U %U encodes to % x", a, b, e)
			}
			if dawg.UtfcDecode(e) != string([]rune{a, b}) {
				fail("round trip of %U %U", a, b)
			}
		}
	}
}
'''),
dict(id='C04-second-refusal', prop='C04', needs='a follower that refuses the second byte of a two-byte form with a zero marker',
 breaks='the refusal of the second byte is ignored: coding goes on and reports success',
 edits=[('utfc.go','''				if !f.Follow(marker10) || !f.Follow(byte(marker13Bit|(cp>>8))) {
					return false
				}
''','''				if !f.Follow(marker10) {
					return false
				}
				f.Follow(byte(marker13Bit | (cp >> 8)))
''')],
 go='''type stop struct{ left int }

func (s *stop) Follow(b byte) bool {
	if s.left == 0 {
		return false
	}
	s.left--
	return true
}

func main() {
	for _, str := range []string{"a\\u0500b", "\\u0700", "x\\u1200\\u1201"} {
		n := len(dawg.UtfcEncode(str))
		for k := 0; k < n; k++ {
			if dawg.UtfcFollow(str, &stop{k}) {
				fail("%q: success although byte %d was refused", str, k)
			}
		}
		if !dawg.UtfcFollow(str, &stop{n}) {
			fail("%q: failed", str)
		}
	}
}
'''),
dict(id='C06-len-prefix', prop='C06', needs='a lookup by length of a string that is only a prefix of a key',
 breaks='the value of something else is returned for a string that is not a key',
 edits=[('dictionary.go','''	if !dict.FollowStringLen(key, length, &index) {
		return -1
	}
	if dict.HasValue(index) {''','''	if !dict.FollowStringLen(key, length, &index) {
		return -1
	}
	if length > 0 || dict.HasValue(index) {''')],
 go='''func main() {
	_, dict := build([]string{"apple", "apply"}, func(i int) int32 { return int32(i + 1) })
	for n := 0; n <= 5; n++ {
		if a, b := dict.FindStringLen("apple", n), dict.FindString("apple"[:n]); a != b {
			fail("%q: %d by length, %d by string", "apple"[:n], a, b)
		}
	}
}
'''),
dict(id='C22-leaf-value', prop='C22', needs='walking the automaton by Child and Sibling over a state that is both final and has children',
 breaks='the sibling of a terminal with an odd value or of a state is taken from the wrong bit',
 edits=[('dawg.go','if dawg.basePool[index].hasSibling() {','if dawg.basePool[index].hasSibling() && (dawg.Label(index) != 0 || dawg.Value(index) != MaxValue) {')],
 go='''func main() {
	d, _ := build([]string{"a", "ab"}, func(i int) int32 { return []int32{dawg.MaxValue, 7}[i] })
	n := d.Child(d.Child(0))
	if d.Label(n) != 0 || d.Value(n) != dawg.MaxValue {
		fail("terminal: label %d value %d", d.Label(n), d.Value(n))
	}
	n = d.Sibling(n)
	if n == 0 || d.Label(n) != 'b' {
		fail("the sibling of the terminal is %d", n)
	}
}
'''),
dict(id='C20-last-field', prop='C20', needs='a lexicon line with more than one tab',
 breaks='the value is taken from the last field instead of the second',
 edits=[('cmd/dawgtool/main.go','value, err := strconv.Atoi(parts[1])','value, err := strconv.Atoi(parts[len(parts)-1])')],
 sh='''printf 'a\\t5\\t7\\nb\\t6\\n' > lex
printf 'a\\nb\\n' > q
./dawgtool -b -t lex dict > build.out || exit 1
./dawgtool q dict > out || exit 1
grep -qx 'a: a = 5;' out && grep -qx 'b: b = 6;' out || { cat out; exit 1; }
'''),
dict(id='C21-index-leak', prop='C21', needs='two queries in one run',
 breaks='a query starts where the previous one ended',
 edits=[('cmd/dawgtool/main.go','''	for scanner.Scan() {
		var key string = scanner.Text()

		fmt.Printf("%s:", key)
		var index uint32 = dict.Root()
''','''	var index uint32 = dict.Root()
	for scanner.Scan() {
		var key string = scanner.Text()

		fmt.Printf("%s:", key)
''')],
 sh='''printf 'a\\t5\\naa\\t6\\n' > lex
printf 'a\\na\\n' > q
./dawgtool -b -t lex dict > build.out || exit 1
./dawgtool q dict > out || exit 1
[ "$(grep -cx 'a: a = 5;' out)" = 2 ] || { cat out; exit 1; }
'''),
dict(id='C19-guide-write', prop='C19', needs='the disk filling up after the dictionary section',
 breaks='the tool reports success although the guide was not written',
 edits=[('cmd/dawgtool/main.go','''		if !guide.Write(fileDictionary) {
			log.Fatalf("error: failed to write Guide\\n")
		}
''','''		guide.Write(fileDictionary)
''')],
 sh='''for i in $(seq 1000 2000); do printf "key%s\\t%s\\n" $i $((i * 7)); done > lex
./dawgtool -b -t lex dict > build.out || exit 1
n=$(stat -c %s dict)
./dawgtool -b -t -g lex full > build.out || exit 1
m=$(stat -c %s full)
lim=$(( (n + 1023) / 1024 ))
[ $((lim * 1024)) -lt "$m" ] || { echo "sizes $n $m"; exit 3; }
if (ulimit -f $lim; ./dawgtool -b -t -g lex cut > build.out 2>&1); then
  echo "success reported, $(stat -c %s cut) of $m bytes"; exit 1
fi
exit 0
'''),
]
